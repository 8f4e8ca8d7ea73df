"""C06: refitting, copying, cloning and pickling reproduce the same model."""
import copy
import pickle

import numpy as np
import pandas as pd
import sklearn.base
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from cyclic_boosting import flags
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C06"
RULE = (
    "a case is a history of operations on one estimator over two data sets; non-trivial = training converged, the "
    "history contains at least two trainings or a copy, and predictions are not all equal"
)
OPS = ["fitA", "fitB", "predict", "predict_other", "explain", "importances", "copy", "pickle", "clone", "transform", "proba"]


def other_data(case, seed):
    """A second data set for the same estimator."""
    rs = np.random.RandomState(seed)
    n = len(case["y"])
    m = int(rs.randint(5, n + 6))
    idx = rs.randint(0, n, size=m)
    c = dict(case)
    c["cols"] = {}
    for k, v in case["cols"].items():
        a = np.array([np.nan if x is None else x for x in v], dtype=float)[rs.permutation(n)][idx % n]
        if rs.randint(2):
            a[rs.randint(m)] = np.nanmax(np.append(a, 0)) + 1
        if not np.isfinite(a).any():
            a[0] = 0
        c["cols"][k] = gen.contiguous(a).tolist()
    pick = lambda v: [v[i] for i in idx]  # noqa: E731
    c["y"] = pick(case["y"])
    if case["mode"] == "gbs" and not any(c["y"]):
        c["y"][0] = 1.0
    if case["w"] is not None:
        c["w"] = pick(case["w"])
        c["w"][0] = 1.0
    if case["prior"] is not None:
        c["prior"] = pick(case["prior"])
        if not np.isfinite(np.array(c["prior"], dtype=float)).any():
            c["prior"][0] = 0.5
    c["extra"] = {k: pick(v) for k, v in case["extra"].items()}
    if case["mode"] == "gbs" and case["w"] is not None:
        y, w = np.array(c["y"]), np.array(c["w"])
        if not np.sum((y != 0) * w) > 0:
            c["y"][0] = 1.0
    c["row_keys"] = gen.row_keys(c)
    return c


def pickled(m):
    try:
        return pickle.loads(pickle.dumps(m))
    except Exception as exc:  # noqa: B902
        require(False, "the fitted object cannot be pickled: %r" % exc)


def summary(case, est, P):
    out = {"pred": gen.raw_predict(case, est, P)}
    for k, v in est.get_feature_contributions(P).items():
        out["contribution of " + str(k)] = np.asarray(v, dtype=float)
    imp = est.get_feature_importances()
    for k in imp:
        out["importance of " + str(k)] = np.asarray(imp[k], dtype=float)
    return out


def same(a, b, what):
    require(set(a) == set(b), "%s: reports %r, a fresh fit reports %r" % (what, sorted(a), sorted(b)))
    for k in b:
        require(
            a[k].shape == b[k].shape and np.allclose(a[k], b[k], rtol=1e-12, atol=1e-300, equal_nan=True),
            "%s: %s is %r, after a fresh fit %r" % (what, k, np.ravel(a[k])[:4], np.ravel(b[k])[:4]),
        )


def check(case, ctx):
    A = case
    B = other_data(case, case["seed2"])
    P = gen.pred_frame(case)
    ref = {}
    for name, c in (("A", A), ("B", B)):
        est = gen.fit(c)
        if est is None:
            raise Discard("diverged")
        ref[name] = summary(case, est, P)
    data = {"A": (gen.frame(A), gen.target(A)), "B": (gen.frame(B), gen.target(B))}
    case_t = dict(case, params=dict(case["params"], output_column="OUT"))
    m = gen.build(case_t)
    state = None
    done = []
    for op in case["ops"]:
        done.append(op)
        if op in ("fitA", "fitB"):
            state = op[-1]
            m.fit(data[state][0].copy(), data[state][1].copy())
            same(summary(case, m, P), ref[state], "after " + ">".join(done))
            continue
        if op == "clone":
            m = sklearn.base.clone(m)
            state = None
            continue
        if state is None:
            continue
        if op == "predict":
            m.predict(P.copy())
        elif op == "predict_other":
            gen.raw_predict(case, m, data["B" if state == "A" else "A"][0].copy())
        elif op == "explain":
            m.get_feature_contributions(data["A"][0].copy())
        elif op == "importances":
            m.get_feature_importances()
        elif op == "transform":
            m.transform(P.copy())
        elif op == "proba" and case["mode"] == "classifier":
            m.predict_proba(P.copy())
        elif op == "copy":
            old, m = m, copy.deepcopy(m)
            same(summary(case, m, P), ref[state], "deep copy after " + ">".join(done))
            # the copy is independent of the original
            try:
                old.fit(*[v.copy() for v in data["B" if state == "A" else "A"]])
            except ConvergenceError:
                pass
        elif op == "pickle":
            m = pickled(m)
        same(summary(case, m, P), ref[state], "after " + ">".join(done))
    if state is not None:
        est = gen.fit(A if state == "A" else B)
        same(summary(case, est, P), ref[state], "second fresh fit")
    for op in set(case["ops"]):
        ctx.label(op)
    ctx.label(case["mode"])
    fits = sum(o.startswith("fit") for o in case["ops"])
    ctx.mark(state is not None and fits + case["ops"].count("copy") + case["ops"].count("pickle") > 1 and len(np.unique(ref[state]["pred"])) > 1)


# -- no feature groups given: the columns of each data set are used


def check_default(case, ctx):
    from cyclic_boosting import CBLocPoissonRegressor, CBPoissonRegressor

    rs = np.random.RandomState(case["seed"])
    names = ["a", "b", "c"]
    props = {k: int(rs.choice([flags.IS_UNORDERED, flags.IS_CONTINUOUS])) for k in names}
    data, P = {}, {}
    for k in "AB":
        cols = [c for c in names if rs.randint(3)] or ["b"]
        if rs.randint(2):
            cols = cols[::-1]
        X = pd.DataFrame({c: gen.contiguous(rs.randint(0, 4, size=case["n"]).astype(float)) for c in cols})
        y = rs.poisson(1 + X.values.sum(axis=1)).astype(float)
        y[0] += 1
        X["W"] = rs.randint(1, 4, size=len(X)) * 1.0
        data[k] = (X, y)
        P[k] = X.iloc[rs.randint(0, len(X), size=6)].copy()

    def fresh():
        cls = CBLocPoissonRegressor if case["additive"] else CBPoissonRegressor
        return cls(feature_properties=dict(props), weight_column="W" if case["bins"] % 2 else None, maximal_iterations=3)

    if not case["bins"] % 2:
        data = {k: (X.drop(columns="W"), y) for k, (X, y) in data.items()}
    try:
        ref = {k: summary({"mode": "poisson"}, fresh().fit(X.copy(), y.copy()), P[k]) for k, (X, y) in data.items()}
    except ConvergenceError:
        raise Discard("diverged")
    m, state, done = fresh(), None, []
    for op in case["ops"]:
        done.append(op)
        if op in ("fitA", "fitB"):
            state = op[-1]
            m.fit(data[state][0].copy(), data[state][1].copy())
        elif op == "clone":
            m, state = sklearn.base.clone(m), None
        elif state is None:
            continue
        elif op == "copy":
            m = copy.deepcopy(m)
        elif op == "pickle":
            m = pickled(m)
        else:
            m.predict(P[state].copy())
        if state is not None:
            same(summary({"mode": "poisson"}, m, P[state]), ref[state], "no feature groups given, after " + ">".join(done))
    other_columns = list(data["A"][0]) != list(data["B"][0])
    ctx.label("columns differ" if other_columns else "columns agree")
    ctx.mark(state is not None and other_columns)


# -- binners and pipelines


def raw_frame(rs, n):
    X = pd.DataFrame({"x": np.round(rs.normal(size=n) * rs.choice([1.0, 100.0]), 3), "k": rs.randint(0, 5, size=n) * 3.0})
    X.loc[rs.uniform(size=n) < 0.1, "x"] = np.nan
    X.loc[rs.uniform(size=n) < 0.1, "k"] = np.nan
    return X


def check_binner(case, ctx):
    from cyclic_boosting import binning

    rs = np.random.RandomState(case["seed"])
    data = {"A": raw_frame(rs, case["n"]), "B": raw_frame(rs, case["n"] + 3)}
    P = raw_frame(rs, 8)
    props = {"x": flags.IS_CONTINUOUS, "k": flags.IS_UNORDERED}

    def fresh():
        cls = binning.ECdfTransformer if case["ecdf"] else binning.BinNumberTransformer
        return cls(n_bins=case["bins"], feature_properties=dict(props))

    ref = {k: np.asarray(fresh().fit(v.copy()).transform(P.copy()), dtype=float) for k, v in data.items()}
    m = fresh()
    state = None
    done = []
    for op in case["ops"]:
        done.append(op)
        if op in ("fitA", "fitB"):
            state = op[-1]
            m.fit(data[state].copy())
        elif op == "clone":
            m = sklearn.base.clone(m)
            state = None
        elif state is None:
            continue
        elif op == "copy":
            m = copy.deepcopy(m)
        elif op == "pickle":
            m = pickled(m)
        else:
            m.transform(data["B"].copy())
        if state is not None:
            got = np.asarray(m.transform(P.copy()), dtype=float)
            require(
                np.array_equal(got, ref[state], equal_nan=True),
                "after %s the transformed rows are %r instead of %r" % (">".join(done), got[:3].tolist(), ref[state][:3].tolist()),
            )
    ctx.label("ecdf" if case["ecdf"] else "binnumber")
    ctx.mark(state is not None and not np.array_equal(ref["A"], ref["B"], equal_nan=True))


def check_pipeline(case, ctx):
    from cyclic_boosting import pipelines as pl

    rs = np.random.RandomState(case["seed"])
    n = case["n"] + 10
    data = {}
    for k in "AB":
        X = raw_frame(rs, n)
        y = rs.poisson(2 + np.nan_to_num(X["k"].values) / 3).astype(float)
        data[k] = (X, (y > 2).astype(float) if case["clf"] else y)
    P = raw_frame(rs, 8)

    def fresh():
        f = pl.pipeline_CBClassifier if case["clf"] else pl.pipeline_CBPoissonRegressor
        return f(
            feature_groups=["x", "k", ("x", "k")],
            feature_properties={"x": flags.IS_CONTINUOUS, "k": flags.IS_UNORDERED},
            number_of_bins=case["bins"],
            maximal_iterations=3,
        )

    def value(m):
        return m.predict_proba(P.copy())[:, 1] if case["clf"] else m.predict(P.copy())

    try:
        ref = {k: value(fresh().fit(X.copy(), y.copy())) for k, (X, y) in data.items()}
    except ConvergenceError:
        raise Discard("diverged")
    m = fresh()
    state = None
    done = []
    for op in case["ops"]:
        done.append(op)
        if op in ("fitA", "fitB"):
            state = op[-1]
            m.fit(data[state][0].copy(), data[state][1].copy())
        elif op == "clone":
            m = sklearn.base.clone(m)
            state = None
        elif state is None:
            continue
        elif op == "copy":
            m = copy.deepcopy(m)
        elif op == "pickle":
            m = pickled(m)
        else:
            m.predict(data["B"][0].copy())
        if state is not None:
            got = value(m)
            require(
                np.allclose(got, ref[state], rtol=1e-12),
                "after %s the pipeline predicts %r instead of %r" % (">".join(done), got[:3], ref[state][:3]),
            )
    ctx.label("pipeline")
    ctx.mark(state is not None and len(np.unique(ref[state])) > 1)


OPLIST = st.lists(st.sampled_from(OPS + ["fitA", "fitB", "fitB", "fitA"]), min_size=3, max_size=9).map(lambda o: ["fitA"] + o)


def strat(modes, **kw):
    return st.tuples(
        gen.problems(modes=modes, **{"pred_rows": 8, **kw}), st.integers(0, 2**31 - 1), OPLIST
    ).map(lambda t: dict(t[0], seed2=t[1], ops=t[2]))


def simple(extra):
    return st.tuples(
        st.integers(0, 2**31 - 1), st.integers(3, 60), st.integers(2, 12), st.booleans(), OPLIST
    ).map(lambda t: {"seed": t[0], "n": t[1], "bins": t[2], extra: t[3], "ops": t[4]})


SUBS = [
    Sub("fast", lambda: strat(gen.FAST, hier=True, max_rows=50), check, 700),
    Sub("slow", lambda: strat(gen.SLOW, max_rows=40), check, 90),
    Sub("special", lambda: strat(["nbinomc", "exponential"], max_rows=50), check, 160),
    Sub("large", lambda: strat(gen.FAST, hier=True, **gen.LARGE), check, 32),
    Sub("default", lambda: simple("additive"), check_default, 120, shrink_rows=False),
    Sub("binner", lambda: simple("ecdf"), check_binner, 400, shrink_rows=False),
    Sub("pipeline", lambda: simple("clf"), check_pipeline, 120, shrink_rows=False),
]
