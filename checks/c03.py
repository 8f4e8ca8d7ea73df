"""C03: a row's prediction does not depend on how rows are presented."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require

PROPERTY = "C03"
RULE = (
    "a case is a trained model, rows to predict and a sequence of re-presentations of them; non-trivial = training "
    "converged, predictions are not all equal and the re-presentation differs from the original"
)

OPS = ["permute", "single", "subset", "dup", "index", "cols", "extra", "dtype", "batch", "alone_nan", "slice"]


def same(a, b):
    return gen.rel(a, b, 1e-300) <= 1e-12


def check(case, ctx):
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    rs = np.random.RandomState(case["seed2"])
    X = gen.pred_frame(case)
    n = len(X)
    base = gen.raw_predict(case, est, X)
    contrib = {k: np.asarray(v) for k, v in est.get_feature_contributions(X).items()}

    def compare(X2, idx, what):
        p = gen.raw_predict(case, est, X2)
        require(p.shape == (len(idx),), "%s: shape %s" % (what, p.shape))
        require(same(p, base[idx]), "%s: predictions change from %r to %r" % (what, base[idx][:4], p[:4]))
        c = est.get_feature_contributions(X2)
        for k in contrib:
            require(same(np.asarray(c[k]), contrib[k][idx]), "%s: contribution of %s changes" % (what, k))

    for op in case["ops"]:
        idx = np.arange(n)
        if op == "permute":
            idx = rs.permutation(n)
            compare(X.iloc[idx], idx, op)
        elif op == "single":
            i = rs.randint(n)
            compare(X.iloc[[i]], np.array([i]), op)
        elif op == "alone_nan":
            # one row whose feature values are all missing
            X2 = X.iloc[[0]].copy()
            for c in case["cols"]:
                X2[c] = np.nan
            p1 = gen.raw_predict(case, est, X2)
            X3 = pd.concat([X2, X.iloc[rs.permutation(n)]])
            p3 = gen.raw_predict(case, est, X3)
            require(same(p1, p3[:1]), "all-missing row predicted %r alone, %r in a batch" % (p1, p3[:1]))
        elif op == "subset":
            k = rs.randint(1, n + 1)
            idx = np.sort(rs.permutation(n)[:k])
            compare(X.iloc[idx], idx, op)
        elif op == "dup":
            idx = rs.randint(0, n, size=rs.randint(1, 2 * n))
            compare(X.iloc[idx], idx, op)
        elif op == "slice":
            lo = rs.randint(0, n)
            idx = np.arange(lo, n)[:: rs.randint(1, 3)]
            compare(X.iloc[idx], idx, op)
        elif op == "index":
            X2 = X.copy()
            kind = rs.randint(3)
            X2.index = [rs.permutation(n) + 5, ["r%d" % (i % 3) for i in range(n)], -np.arange(n)][kind]
            compare(X2, idx, op)
        elif op == "cols":
            cols = [X.columns[i] for i in rs.permutation(X.shape[1])]
            compare(X[cols], idx, op)
        elif op == "extra":
            X2 = X.copy()
            X2.insert(int(rs.randint(X.shape[1] + 1)), "unrelated", rs.normal(size=n))
            X2["text"] = "x"
            compare(X2, idx, op)
        elif op == "dtype":
            X2 = X.copy()
            fin = np.isfinite(X[list(case["cols"])].values).all(axis=1)
            if not fin.any():
                continue
            idx = np.nonzero(fin)[0]
            X2 = X2.iloc[idx].copy()
            for c in case["cols"]:
                X2[c] = X2[c].astype([np.int64, np.int8, np.int32, np.float32, np.int16][rs.randint(5)])
            compare(X2, idx, op)
        elif op == "batch":
            k = rs.randint(0, n + 1)
            parts = [gen.raw_predict(case, est, P) for P in (X.iloc[:k], X.iloc[k:]) if len(P)]
            require(same(np.concatenate(parts), base), "batch: predictions change when split")
        ctx.label(op)
    require(same(gen.raw_predict(case, est, X), base), "repeating a prediction changes it")
    ctx.label(case["mode"])
    ctx.mark(len(np.unique(base)) > 1)


def array_case(case):
    """Positions instead of names."""
    names = list(case["cols"])
    pos = {c: i for i, c in enumerate(names)}
    return pos


def check_array(case, ctx):
    """A model trained by position on an array equals the one trained by name."""
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    X, Xp = gen.frame(case), gen.pred_frame(case)
    cols = list(X.columns)
    pos = {c: i for i, c in enumerate(cols)}
    groups = [pos[g[0]] if len(g) == 1 else tuple(pos[c] for c in g) for g in case["groups"]]
    over = {"feature_properties": {pos[c]: int(v) for c, v in case["props"].items()}}
    if case["mode"] == "exponential":
        return
    over["feature_groups"] = groups
    if case["w"] is not None:
        over["weight_column"] = pos["W"]
    if case["prior"] is not None:
        over["prior_prediction_column"] = pos["PRIOR"]
    est2 = gen.build(case, **over)
    est2.fit(X.values, gen.target(case))
    a = gen.raw_predict(case, est, Xp)
    arr = Xp[cols].values
    forms = {
        "array": arr,
        "fortran": np.asfortranarray(arr),
        "view": np.hstack([arr, arr])[:, : arr.shape[1]],
    }
    for k, A in forms.items():
        p = gen.raw_predict(case, est2, A)
        require(same(p, a), "%s of the same values predicts %r instead of %r" % (k, p[:4], a[:4]))
    i = case["seed2"] % len(arr)
    require(same(gen.raw_predict(case, est2, arr[[i]]), a[[i]]), "single array row predicted differently")
    ctx.label("array:" + case["mode"])
    ctx.mark(len(np.unique(a)) > 1)


def strat(modes, **kw):
    return st.tuples(
        gen.problems(modes=modes, **{"pred_rows": 10, **kw}),
        st.integers(0, 2**31 - 1),
        st.lists(st.sampled_from(OPS), min_size=1, max_size=5, unique=True),
    ).map(lambda t: dict(t[0], seed2=t[1], ops=t[2]))


SUBS = [
    Sub("present_fast", lambda: strat(gen.FAST, weights=("none", "int", "real", "huge")), check, 900),
    Sub("present_slow", lambda: strat(gen.SLOW + ["nbinomc", "exponential"]), check, 260),
    Sub("present_large", lambda: strat(gen.ALL, **gen.LARGE), check, 40),
    Sub("array", lambda: strat(gen.FAST + ["mquantile", "ageneric"]), check_array, 300),
]
