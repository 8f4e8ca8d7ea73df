"""C05: sample weights act like repeated and absent rows."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen, stable
from cbv.core import Discard, Sub, require
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer

from checks import binning as B

PROPERTY = "C05"
RULE = (
    "a case is a training problem with integer weights and its unweighted counterpart; non-trivial = training "
    "converged, predictions are not all equal and the weights differ from one"
)


def take(case, idx, w):
    """The problem restricted to / repeated at the given row numbers."""
    c = dict(case)
    c["cols"] = {k: [v[i] for i in idx] for k, v in case["cols"].items()}
    c["y"] = [case["y"][i] for i in idx]
    if case.get("prior") is not None:
        c["prior"] = [case["prior"][i] for i in idx]
    c["extra"] = {k: [v[i] for i in idx] for k, v in (case.get("extra") or {}).items()}
    c["w"] = w
    return c


def predict(case, P):
    est = gen.fit(case)
    if est is None:
        return None
    con = est.get_feature_contributions(P)
    return np.concatenate([gen.raw_predict(case, est, P)] + [np.ravel(con[k]) for k in sorted(con)])


def compare(case, ctx, what, variant):
    """``variant(case)`` is the counterpart that has to train the same model."""
    P = gen.pred_frame(case)
    a, b = predict(case, P), predict(variant(case), P)
    if a is None or b is None:
        raise Discard("diverged")
    mode = case["mode"]
    tol = 1e-7 if mode in gen.FAST + ["exponential"] else 1e-5
    stable.require_same(case, what, b, a, lambda c: predict(c, P), tol=tol)
    ctx.label(mode)
    ctx.mark(len(np.unique(a[: len(P)])) > 1)


def check_zero(case, ctx):
    # the rows to be ignored repeat the bins of weighted rows but carry their own target and prior
    rs = np.random.RandomState(case["seed2"])
    n = len(case["y"])
    k = rs.randint(1, n + 1)
    src = rs.randint(0, n, size=k)
    w0 = case["w"] if case["w"] is not None else [1.0] * n
    order = rs.permutation(n + k)
    big = take(case, list(range(n)) + list(src), list(w0) + [0.0] * k)
    y = np.asarray(big["y"])
    if case["mode"] in ("classifier", "gclassifier"):
        y[n:] = rs.randint(0, 2, size=k)
    elif case["mode"] in ("location", "aquantile", "ageneric", "gbs"):
        y[n:] = y[n:] + rs.normal(size=k) * (1 + np.abs(y).max())
    else:
        y[n:] = np.round(y[n:] * rs.choice([0.0, 0.5, 3.0, 10.0], size=k) + rs.choice([0.0, 1.0, 7.0], size=k), 6)
    big["y"] = y.tolist()
    if big["prior"] is not None:
        p = np.asarray(big["prior"], dtype=float)
        p[n:] = rs.permutation(p[n:])
        big["prior"] = p.tolist()
    big = take(big, list(order), [big["w"][i] for i in order])
    # predicting uses the same rows for both
    big["pred"] = case["pred"]
    small = dict(case, w=list(w0))

    def variant(_):
        return big

    P = gen.pred_frame(small)
    a, b = predict(small, P), predict(big, P)
    if a is None or b is None:
        raise Discard("diverged")
    tol = 1e-7 if case["mode"] in gen.FAST + ["exponential"] else 1e-5
    stable.require_same(small, "rows of weight zero", b, a, lambda c: predict(c, P), tol=tol)
    ctx.label(case["mode"])
    ctx.mark(len(np.unique(a[: len(P)])) > 1)


def check_unit(case, ctx):
    compare(dict(case, w=None), ctx, "unit weights", lambda c: dict(c, w=[1.0] * len(c["y"])))


def check_repeat(case, ctx):
    n = len(case["y"])
    w = np.asarray(case["w"], dtype=int)
    idx = np.repeat(np.arange(n), w)
    rs = np.random.RandomState(case["seed2"])
    idx = idx[rs.permutation(len(idx))]
    form = case["seed2"] % 2
    compare(
        case, ctx, "integer weights against repeated rows",
        lambda c: take(c, list(idx), None if form else [1.0] * len(idx)),
    )


def check_binning(case, ctx):
    w = np.asarray(case["w"], dtype=int)
    idx = np.repeat(np.arange(len(w)), w)
    rs = np.random.RandomState(case["seed2"])
    idx = idx[rs.permutation(len(idx))]
    other = dict(case, w=None, cols={c: [v[i] for i in idx] for c, v in case["cols"].items()})
    cls = [BinNumberTransformer, ECdfTransformer][case["seed2"] % 2]
    a, b = B.transformer(case, cls), B.transformer(other, cls)
    a.fit(B.table(case))
    b.fit(B.table(other))
    la, lb = B.learned(case, a), B.learned(other, b)
    require(sorted(la) == sorted(lb), "columns %r and %r" % (sorted(la), sorted(lb)))
    for c in la:
        if la[c] is None or lb[c] is None:
            require(la[c] is None and lb[c] is None, "bins of %r: %r with weights, %r with repeated rows" % (c, la[c], lb[c]))
            continue
        require(
            la[c].shape == lb[c].shape and np.allclose(la[c], lb[c], rtol=1e-12, atol=1e-12),
            "bins of %r: %r with weights, %r with repeated rows" % (c, la[c].tolist(), lb[c].tolist()),
        )
        ctx.mark(len(la[c]) > 2)


@st.composite
def weighted_tables(draw):
    case = draw(B.tables(weights=False))
    n = len(next(iter(case["cols"].values())))
    rs = np.random.RandomState(case["seed2"])
    w = rs.randint(0, 4, size=n)
    w[rs.randint(n)] = 1
    case["w"] = w.astype(float).tolist()
    case["dtypes"] = {c: "float64" for c in case["cols"]}
    return case


def strat(modes, **kw):
    return st.tuples(gen.problems(modes=modes, **kw), st.integers(0, 2**31 - 1)).map(lambda t: dict(t[0], seed2=t[1]))


SUBS = [
    Sub("zero_fast", lambda: strat(gen.FAST, weights=("none", "real", "posint")), check_zero, 900),
    Sub("zero_slow", lambda: strat(gen.SLOW, weights=("none", "real", "posint")), check_zero, 160),
    Sub("unit_fast", lambda: strat(gen.FAST + ["exponential"], weights=("none",)), check_unit, 400),
    Sub("unit_slow", lambda: strat(gen.SLOW, weights=("none",)), check_unit, 80),
    Sub("repeat_fast", lambda: strat(["poisson", "nbinom", "classifier"], weights=("posint",)), check_repeat, 600),
    Sub("zero_large", lambda: strat(gen.FAST, weights=("none", "real"), **gen.LARGE), check_zero, 32),
    Sub("repeat_large", lambda: strat(["poisson", "nbinom", "classifier"], weights=("posint",), **gen.LARGE), check_repeat, 32),
    Sub("binning", weighted_tables, check_binning, 600, shrink_rows=False),
]
