"""C21: bin numbers follow from the learned boundaries for every value."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cyclic_boosting.binning import BinNumberTransformer, MISSING_VALUE_AS_BINNO

from cbv.core import Sub, require
from checks import binning as B

PROPERTY = "C21"
RULE = (
    "a case is a learned binner and rows to transform (training values, boundaries, values between and around them, "
    "outside values, missing, infinite and magic ones); non-trivial = at least two different bin numbers occur"
)


def probes(rs, case, name, bc, n):
    """Values to transform, most of them close to something interesting."""
    v = B.column(case, name)
    fin = v[np.isfinite(v)]
    cand = [rs.choice(v, size=n)]
    if bc is not None:
        b = np.unique(bc[:, 0])
        width = np.min(np.diff(b)) if len(b) > 1 else 1.0
        x = rs.choice(b, size=n)
        cand += [
            x,
            x + rs.choice([-1.0, 1.0], size=n) * width * rs.choice([0.5, 0.01, 1e-5], size=n),
            np.nextafter(x, np.inf),
            np.nextafter(x, -np.inf),
        ]
        if len(b) > 1:
            i = rs.randint(0, len(b) - 1, size=n)
            t = rs.uniform(size=n)
            cand.append(b[i] * (1 - t) + b[i + 1] * t)
        span = b[-1] - b[0] + 1
        cand.append(rs.choice([b[0] - span, b[-1] + span, b[0] - 1e-3 * span, b[-1] + 1e12], size=n))
    cand.append(rs.choice([B.NAN, np.inf, -np.inf, -9.0, -999.0, 0.0, 1e300, -1e300, 5e-324], size=n))
    if len(fin):
        cand.append(np.round(rs.choice(fin, size=n)))
    k = rs.randint(0, len(cand), size=n)
    return np.array([cand[k[i]][i] for i in range(n)])


def allowed(case, name, bc, x):
    """Set of acceptable bin numbers (two only within the documented comparison threshold)."""
    miss = {MISSING_VALUE_AS_BINNO}
    if bc is None or not np.isfinite(x):
        return miss
    if B.is_magic(case, name) and x in (-9, -999):
        return miss
    b = bc[:, 0]
    d = np.diff(b)
    eps = case["eps"] * (np.min(d[d > 0]) if np.any(d > 0) else 1.0)
    up = b[1:]
    if B.discrete(case, name):
        hit = np.abs(up - x) <= eps * (1 + 1e-6)
        sure = up == x
        out = set(np.nonzero(hit)[0].tolist())
        return out if sure.any() else out | miss
    out = set()
    for s in (x, x - eps, x - 2 * eps):
        out.add(int(min(np.searchsorted(up, s, side="left"), len(up) - 1)))
    if np.any(up == x):
        out = {int(np.searchsorted(up, x, side="left"))}
    return out


def check(case, ctx):
    tr = B.transformer(case, BinNumberTransformer, inplace=case.get("inplace", False))
    X = B.table(case)
    tr.fit(X)
    learned = B.learned(case, tr)
    rs = np.random.RandomState(case["seed2"])
    n = case["n_pred"]
    cols = {}
    for c in B.names(case):
        if c == "W":
            cols[c] = np.ones(n)
        elif c in learned:
            cols[c] = probes(rs, case, c, learned[c], n)
        else:
            cols[c] = np.round(rs.normal(size=n), 3)
    dt = case["pred_dtype"]
    if dt != "float64":
        for c in cols:
            v = np.where(np.isfinite(cols[c]), cols[c], 0.0)
            info = (0, 1) if dt == "bool" else (np.iinfo(dt).min, np.iinfo(dt).max)
            cols[c] = np.clip(np.round(v), *info).astype(dt)
            if dt == "int64":
                cols[c] = np.clip(np.round(v), -(2**40), 2**40).astype(dt)
    if case["form"] == "array":
        P = np.column_stack([cols[c] for c in B.names(case)]) if n else np.empty((0, len(cols)), dtype=dt)
        if case["fortran"]:
            P = np.asfortranarray(P)
    else:
        P = pd.DataFrame(cols, index=(rs.permutation(n) * 2 + 5 if case["seed2"] % 2 else ["x"] * n))
    before = P.copy()
    out = tr.transform(P)
    if case.get("inplace"):
        require(np.array_equal(np.asarray(out), np.asarray(P)), "in-place binner left its input unchanged")
    else:
        require(out is not P, "binner returns its input")
    require(type(out) is type(before) and out.shape == before.shape, "shape %r -> %r" % (before.shape, out.shape))
    if case["form"] == "frame":
        require(list(out.columns) == list(before.columns), "columns changed to %r" % (list(out.columns),))
        require(out.index.equals(before.index), "row labels changed to %r" % (list(out.index)[:5],))
    seen = set()
    for j, c in enumerate(B.names(case)):
        got = np.asarray(out[c]) if case["form"] == "frame" else out[:, j]
        src = np.asarray(before[c]) if case["form"] == "frame" else before[:, j]
        if c not in learned:
            require(
                np.array_equal(np.asarray(got, dtype=float), np.asarray(src, dtype=float), equal_nan=True),
                "column %r without properties changed from %r to %r" % (c, src[:5], got[:5]),
            )
            continue
        if case["form"] == "frame" or len(learned) == len(B.names(case)):
            require(np.issubdtype(got.dtype, np.integer), "bin numbers of dtype %r" % got.dtype)
        bc = learned[c]
        top = 0 if bc is None else len(bc) - 1
        for x, k in zip(src.astype(float), got):
            ok = allowed(case, c, bc, x)
            require(float(k) in ok, "value %r of %r -> bin %r instead of %r; boundaries %r" % (
                x, c, k, sorted(ok), None if bc is None else bc[:, 0].tolist()))
            require(-1 <= k < max(top, 0) or k == -1, "bin number %r out of range" % k)
            seen.add(k)
    ctx.label(case["form"])
    ctx.label(dt)
    ctx.mark(len(seen) > 1)


@st.composite
def cases(draw, **kw):
    case = draw(B.tables(**kw))
    case["n_pred"] = draw(st.sampled_from([40, 40, 40, 5, 1, 0]))
    case["inplace"] = draw(st.integers(0, 4)) == 0
    case["fortran"] = draw(st.booleans())
    case["pred_dtype"] = draw(st.sampled_from(["float64"] * 4 + ["int64", "int32", "int16", "int8", "uint8", "bool"]))
    if case["inplace"] and case["form"] == "array":
        case["pred_dtype"] = "float64"
    return case


SUBS = [
    Sub("numbers", lambda: cases(), check, 10000, shrink_rows=False),
    Sub("many_bins", lambda: cases(max_rows=2500, max_cols=1), check, 1000, shrink_rows=False),
]
