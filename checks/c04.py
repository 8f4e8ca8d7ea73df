"""C04: training does not depend on how the observations are presented."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cbv import gen, stable
from cbv.core import Discard, Sub, require
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C04"
RULE = (
    "a case is a training problem and a set of re-presentations of its rows, columns and containers; non-trivial = "
    "training converged and the predictions are not all equal"
)
OPS = ["permute", "index", "colorder", "rename", "extra", "dtype", "yform", "wform", "array", "slice"]


def names_of(case):
    return list(gen.frame(case).columns)


def predictions(case):
    est = gen.fit(case)
    if est is None:
        return None
    return gen.raw_predict(case, est, gen.pred_frame(case))


def check(case, ctx):
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    mode = case["mode"]
    ops = case["ops"]
    rs = np.random.RandomState(case["seed2"])
    X, y, P = gen.frame(case), gen.target(case), gen.pred_frame(case)
    exp = gen.raw_predict(case, est, P)
    n = len(X)
    over = {}
    names = {c: c for c in X.columns}

    if "permute" in ops:
        idx = rs.permutation(n)
        X, y = X.iloc[idx].reset_index(drop=True), y[idx]
    if "dtype" in ops:
        for c in case["cols"]:
            if np.isfinite(X[c].values).all():
                X[c] = X[c].astype([np.int64, np.int8, np.int32, np.float32, np.int16][rs.randint(5)])
    if "wform" in ops and case["w"] is not None and np.all(X["W"] == np.round(X["W"])):
        X["W"] = X["W"].astype([np.int64, np.int32, np.float32][rs.randint(3)])
    if "rename" in ops:
        new = {c: ["zz", "a b", "x_1", "b", "feature", "c", "Q", "r", "s", "t"][i] for i, c in enumerate(rs.permutation(list(X.columns)))}
        X, P = X.rename(columns=new), P.rename(columns=new)
        names = new
    if "extra" in ops:
        X.insert(int(rs.randint(X.shape[1] + 1)), "unrelated", rs.normal(size=n))
        P.insert(int(rs.randint(P.shape[1] + 1)), "unrelated", rs.normal(size=len(P)))
    if "colorder" in ops:
        X = X[[X.columns[i] for i in rs.permutation(X.shape[1])]]
        P = P[[P.columns[i] for i in rs.permutation(P.shape[1])]]
    array = "array" in ops and mode != "exponential"
    key = {c: names[c] for c in names}
    if array:
        P = P[list(X.columns)]
        key = {c: list(X.columns).index(names[c]) for c in names}
    if "rename" in ops or array:
        over["feature_properties"] = {key[c]: int(v) for c, v in case["props"].items()}
        g = lambda gs: [key[g[0]] if len(g) == 1 else tuple(key[c] for c in g) for g in gs]  # noqa: E731
        if mode == "exponential":
            over["standard_feature_groups"], over["external_feature_groups"] = g(case["groups"]), g(case["ext"])
            over["external_colname"] = key["PR"]
            if "PEXP" in key:
                over["prior_exponent_colname"] = key["PEXP"]
        else:
            over["feature_groups"] = g(case["groups"])
        if case["params"].get("hier"):
            over["hierarchical_feature_groups"] = g(case["params"]["hier"])
        if case["w"] is not None:
            over["weight_column"] = key["W"]
        if case["prior"] is not None:
            over["prior_prediction_column"] = key["PRIOR"]
        if mode == "nbinomc":
            over["mean_prediction_column"] = key["MU"]
    if "index" in ops:
        X.index = [rs.permutation(n) + 7, ["r%d" % (i % 3) for i in range(n)], -np.arange(n)][rs.randint(3)]
    if "slice" in ops:
        # a view into a larger table
        X = pd.concat([X, X])[:n]
    if "yform" in ops:
        k = rs.randint(3)
        if k == 0:
            y = pd.Series(y, index=rs.permutation(n) + 100)
        elif k == 1 and np.all(y == np.round(y)):
            y = y.astype(np.int64)
        else:
            y = np.repeat(y, 2)[::2]
    data = X.values if array else X
    est2 = gen.build(case, **over)
    try:
        est2.fit(data, y)
    except ConvergenceError:
        stable.require_same(case, "diverges after %s" % ops, np.full_like(exp, np.nan), exp, predictions)
    got = gen.raw_predict(case, est2, P.values if array else P)
    tol = 1e-7 if mode in gen.FAST + ["exponential", "nbinomc"] else 1e-5
    stable.require_same(case, "training after %s" % "+".join(ops), got, exp, predictions, tol=tol)
    if mode in gen.FAST:
        # explanations follow the renaming
        a = est.get_feature_contributions(gen.pred_frame(case))
        b = est2.get_feature_contributions(P.values if array else P)
        require(len(a) == len(b), "number of explained feature groups changes from %d to %d" % (len(a), len(b)))
    for op in ops:
        ctx.label(op)
    ctx.label(mode)
    ctx.mark(len(np.unique(exp)) > 1)




def check_default_groups(case, ctx):
    """No feature groups: every column except weights and priors, in column order."""
    case = dict(case, groups=[[c] for c in case["cols"]], params=dict(case["params"], hier=None))
    cols = list(case["cols"])
    X, y = gen.frame(case), gen.target(case)
    rs = np.random.RandomState(case["seed2"])
    X = X[[X.columns[i] for i in rs.permutation(X.shape[1])]]
    order = [c for c in X.columns if c in cols]
    case = dict(case, groups=[[c] for c in order])
    est = gen.fit(case, X=X.copy(), y=y)
    if est is None:
        raise Discard("diverged")
    exp = gen.raw_predict(case, est, gen.pred_frame(case))
    other = gen.build(case, feature_groups=None)
    other.fit(X, y)
    got = gen.raw_predict(case, other, gen.pred_frame(case))
    require(stable.deviation(case["mode"], got, exp, y) <= 1e-10, "without feature list %r, with %r" % (got[:4], exp[:4]))
    require(
        set(other.get_feature_contributions(gen.pred_frame(case))) == set(order),
        "default features are %r" % sorted(other.get_feature_contributions(gen.pred_frame(case))),
    )
    ctx.label(case["mode"])
    ctx.mark(len(np.unique(exp)) > 1)


def strat(modes, **kw):
    return st.tuples(
        gen.problems(modes=modes, **kw),
        st.integers(0, 2**31 - 1),
        st.lists(st.sampled_from(OPS), min_size=1, max_size=6, unique=True),
    ).map(lambda t: dict(t[0], seed2=t[1], ops=t[2]))


SUBS = [
    Sub("fast", lambda: strat(gen.FAST, hier=True, max_iter=8), check, 1300),
    Sub("slow", lambda: strat(gen.SLOW, hier=True), check, 200),
    Sub("special", lambda: strat(["nbinomc", "exponential"]), check, 240),
    Sub("large", lambda: strat(gen.FAST + ["exponential"], hier=True, **gen.LARGE), check, 48),
    Sub("default_groups", lambda: strat(gen.FAST + ["mquantile"]), check_default_groups, 240),
]
