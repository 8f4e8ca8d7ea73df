"""C20: bin boundaries follow the documented equal-statistics guarantees."""
import numpy as np
import pandas as pd

from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer, get_bin_bounds

from cbv.core import Sub, require
from checks import binning as B

PROPERTY = "C20"
RULE = (
    "a case is a table with column properties, weights, requested bins and tolerance; non-trivial = at least one "
    "continuous column is reduced to fewer bins than distinct values, or a discrete column has at least two values"
)
SLACK = 1e-7


def check(case, ctx):
    cls = BinNumberTransformer if case["seed2"] % 3 else ECdfTransformer
    tr = B.transformer(case, cls)
    X = B.table(case)
    require(tr.fit(X) is tr, "fit does not return the transformer")
    got = B.learned(case, tr)
    require(sorted(got) == sorted(B.declared(case)), "bins for columns %r instead of %r" % (sorted(got), B.declared(case)))
    if cls is BinNumberTransformer:
        other = B.transformer(dict(case, cols={"other": [0.0, 1.0]}, props=None, w=None, n_bins=2, form="frame"), cls)
        other.fit(pd.DataFrame({"other": [0.0, 1.0]}))
        require(get_bin_bounds(None, "other") is None, "boundaries without binners")
        for name in case["cols"]:
            bb = get_bin_bounds([tr, other], B.label(case, name))
            if got.get(name) is None:
                require(bb is None, "boundaries %r of a column without bins" % (bb,))
            else:
                require(np.array_equal(bb, got[name][:, 0]), "boundaries %r instead of %r" % (bb, got[name][:, 0]))
    for name in B.declared(case):
        bc = got[name]
        u, p = B.distribution(case, name)
        if len(u) == 0:
            require(bc is None, "boundaries %r learned without any valid value" % (bc,))
            ctx.label("no_values")
            continue
        require(bc is not None and bc.ndim == 2 and bc.shape[1] == 2, "no boundaries for %r" % name)
        b, c = bc[:, 0], bc[:, 1]
        cum = np.cumsum(p)
        require(b[0] == u[0] and c[0] == 0.0, "first boundary %r, %r" % (b[0], c[0]))
        if B.discrete(case, name):
            require(np.array_equal(b[1:], u), "discrete boundaries %r for values %r" % (b[1:], u))
            require(np.allclose(c[1:], cum, rtol=0, atol=1e-12), "discrete cdf %r instead of %r" % (c[1:], cum))
            ctx.label("discrete")
            ctx.mark(len(u) > 1)
            continue
        nb = case["n_bins"][name] if isinstance(case["n_bins"], dict) else case["n_bins"]
        require(1 <= len(b) - 1 <= nb, "%d bins for %d requested" % (len(b) - 1, nb))
        require(np.all(np.diff(b[1:]) > 0) and b[1] >= b[0], "boundaries not increasing: %r" % (b,))
        require(np.all(np.isin(b, u)), "boundary is no training value: %r" % (b,))
        require(b[-1] == u[-1], "last boundary %r, maximum %r" % (b[-1], u[-1]))
        pos = np.searchsorted(u, b[1:])
        require(
            np.allclose(c[1:], cum[pos], rtol=0, atol=1e-12),
            "cdf %r instead of the weighted fraction %r" % (c[1:], cum[pos]),
        )
        share = 1.0 / nb
        mass = np.diff(np.r_[0.0, cum[pos]])
        low = share * (1 - case["tol"])
        require(np.all(mass >= low - SLACK), "bin weights %r below the share %r" % (mass, low))
        # bins end at the first value that completes the share; only the last one may collect a remainder
        own = p[pos]
        require(np.all((mass - own)[:-1] < share + SLACK), "bins %r larger than necessary, share %r" % (mass, share))
        rest = mass[-1] - np.max(p[pos[-2] + 1 if len(pos) > 1 else 0 :])
        require(rest < 2 * share + SLACK, "last bin %r larger than necessary, share %r" % (mass[-1], share))
        ctx.label("continuous")
        ctx.mark(len(b) - 1 < len(u))


SUBS = [
    Sub("learn", lambda: B.tables(), check, 14000, shrink_rows=False),
    Sub("learn_large", lambda: B.tables(max_rows=3000, max_cols=1), check, 1600, shrink_rows=False),
]
