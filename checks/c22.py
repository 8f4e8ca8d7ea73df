"""C22: the empirical-CDF transform interpolates the training distribution."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cyclic_boosting.binning import ECdfTransformer

from cbv.core import Sub, require
from checks import binning as B
from checks.c21 import probes

PROPERTY = "C22"
RULE = (
    "a case is a learned transformer and rows to transform (training values, boundaries, values between, outside, "
    "missing, infinite and magic ones); non-trivial = at least two different probabilities occur"
)


def expected(case, name, bc, x):
    """(low, high) of the acceptable result, or None for missing."""
    if bc is None or not np.isfinite(x) or (B.is_magic(case, name) and x in (-9, -999)):
        return None
    b, c = bc[:, 0], bc[:, 1]
    d = np.diff(b)
    eps = case["eps"] * (np.min(d[d > 0]) if np.any(d > 0) else 1.0)
    if B.discrete(case, name):
        u, p = B.distribution(case, name)
        cum = np.cumsum(p)
        hit = np.nonzero(np.abs(u - x) <= eps * (1 + 1e-6))[0]
        if len(hit) == 0:
            return None
        if u[hit[-1]] == x:
            return cum[hit[-1]], cum[hit[-1]]
        return "either", cum[hit[-1]]

    def interp(z):
        if z < b[0]:
            return 0.0
        if z >= b[-1]:
            return float(c[-1])
        i = int(np.searchsorted(b, z, side="right")) - 1
        return c[i] + (z - b[i]) / (b[i + 1] - b[i]) * (c[i + 1] - c[i])

    vals = [interp(x), interp(x + eps), interp(x + 2 * eps)]
    if np.any(b == x):
        vals = [float(c[np.nonzero(b == x)[0][-1]])]
    return min(vals), max(vals)


def check(case, ctx):
    tr = B.transformer(case, ECdfTransformer)
    X = B.table(case)
    tr.fit(X)
    learned = B.learned(case, tr)
    rs = np.random.RandomState(case["seed2"])
    n = case["n_pred"]
    cols = {}
    for c in B.names(case):
        if c == "W":
            cols[c] = np.ones(n)
        elif c in learned:
            cols[c] = probes(rs, case, c, learned[c], n)
        else:
            cols[c] = np.round(rs.normal(size=n), 3)
    if case["form"] == "array":
        P = np.column_stack([cols[c] for c in B.names(case)]) if n else np.empty((0, len(cols)))
        if case["fortran"]:
            P = np.asfortranarray(P)
    else:
        P = pd.DataFrame(cols, index=(rs.permutation(n) * 2 + 5 if case["seed2"] % 2 else ["x"] * n))
    before = P.copy()
    out = tr.transform(P)
    require(type(out) is type(before) and out.shape == before.shape, "shape %r -> %r" % (before.shape, out.shape))
    if case["form"] == "frame":
        require(list(out.columns) == list(before.columns), "columns changed to %r" % (list(out.columns),))
        require(out.index.equals(before.index), "row labels changed to %r" % (list(out.index)[:5],))
    seen = set()
    for j, c in enumerate(B.names(case)):
        got = np.asarray(out[c] if case["form"] == "frame" else out[:, j], dtype=float)
        src = np.asarray(before[c] if case["form"] == "frame" else before[:, j], dtype=float)
        if c not in learned:
            require(np.array_equal(got, src, equal_nan=True), "column %r changed from %r to %r" % (c, src[:5], got[:5]))
            continue
        bc = learned[c]
        for x, k in zip(src, got):
            e = expected(case, c, bc, x)
            if e is None:
                require(np.isnan(k), "value %r of %r -> %r instead of missing" % (x, c, k))
                continue
            if e[0] == "either":
                require(np.isnan(k) or abs(k - e[1]) < 1e-12, "value %r of %r -> %r" % (x, c, k))
                continue
            require(
                e[0] - 1e-9 <= k <= e[1] + 1e-9,
                "value %r of %r -> %r instead of %r; bins %r" % (x, c, k, e, bc.tolist()),
            )
            require(0 <= k <= 1 + 1e-12, "value %r of %r -> %r outside [0, 1]" % (x, c, k))
            seen.add(round(float(k), 9))
        ok = ~np.isnan(got)
        if bc is not None and not B.discrete(case, c):
            o = np.argsort(src[ok], kind="stable")
            require(np.all(np.diff(got[ok][o]) >= -1e-9), "not monotone on %r: %r" % (c, got[ok][o]))
    ctx.label(case["form"])
    ctx.mark(len(seen) > 1)


@st.composite
def cases(draw, **kw):
    case = draw(B.tables(**kw))
    case["n_pred"] = draw(st.sampled_from([40, 40, 40, 5, 1, 0]))
    case["fortran"] = draw(st.booleans())
    return case


SUBS = [
    Sub("probabilities", lambda: cases(), check, 9000, shrink_rows=False),
    Sub("many_bins", lambda: cases(max_rows=2500, max_cols=1), check, 800, shrink_rows=False),
]
