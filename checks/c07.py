"""C07: data passed by the caller is never modified."""
import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from checks import binning as bn
from checks import c25, c26, c28, c29, c31, c33
from cyclic_boosting import binning, pipelines, utils
from cyclic_boosting import quantile_matching as qm
from cyclic_boosting.common_smoothers import SmootherChoiceGroupBy
from cyclic_boosting.observers import BaseObserver
from cyclic_boosting.smoothing import onedim
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C07"
RULE = (
    "a case is a generated set of arguments and a sequence of calls of one object or function; non-trivial = at least "
    "two calls were made with the arguments and they succeeded"
)


class Silent(BaseObserver):
    def observe_iterations(self, *args, **kwargs):
        pass

    def observe_feature_iterations(self, *args, **kwargs):
        pass


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, pd.DataFrame):
        return (
            a.shape == b.shape
            and list(a.columns) == list(b.columns)
            and a.index.equals(b.index)
            and list(a.dtypes) == list(b.dtypes)
            and all(same(a.iloc[:, i].values, b.iloc[:, i].values) for i in range(a.shape[1]))
        )
    if isinstance(a, pd.Series):
        return a.index.equals(b.index) and a.name == b.name and same(a.values, b.values)
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype.kind == "f":
            return np.array_equal(a, b, equal_nan=True) and np.array_equal(np.signbit(a), np.signbit(b))
        return np.array_equal(a, b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if hasattr(a, "__dict__"):
        return same(vars(a), vars(b))
    return a == b


class Watched:
    """Arguments and what they looked like before."""

    def __init__(self, **args):
        self.args = args
        self.before = copy.deepcopy(args)

    def check(self, call, allow=None):
        for k, v in self.args.items():
            ref = self.before[k]
            if allow is not None and k == allow[0]:
                v, ref = allow[1](v), allow[1](ref)
            require(same(v, ref), "%s changes its argument %s: %r, before %r" % (call, k, v, ref))


def layout(case, X):
    """The table in one of several memory layouts."""
    rs = np.random.RandomState(case["seed2"])
    kind = case["layout"]
    if kind == "array" or kind == "fortran" or kind == "view":
        A = np.asarray(X.values, dtype=float)
        if kind == "fortran":
            return np.asfortranarray(A)
        if kind == "view":
            return np.hstack([A, A])[:, : A.shape[1]]
        return A
    X = X.copy()
    if kind == "ints":
        for c in X.columns:
            if c in case["cols"] and np.isfinite(X[c].values).all():
                X[c] = X[c].astype(["int8", "int32", "int64", "float32"][rs.randint(4)])
    elif kind == "index":
        X.index = ["r%d" % (i % 5) for i in range(len(X))]
    elif kind == "slice":
        X = pd.concat([X, X]).iloc[: len(X)]
    elif kind == "block":
        X = pd.DataFrame(X.values, columns=X.columns)
    return X


def target_form(case, y, X):
    k = case["yform"]
    if k == "series":
        return pd.Series(y, index=X.index if isinstance(X, pd.DataFrame) else None, name="t")
    if k == "ints" and np.all(y == np.round(y)) and np.abs(y).max() < 1e9:
        return y.astype("int64")
    if k == "strided":
        return np.repeat(y, 2)[::2]
    return y


def check_estimator(case, ctx):
    mode = case["mode"]
    X, P = gen.frame(case), gen.pred_frame(case)
    arr = case["layout"] in ("array", "fortran", "view") and mode not in ("exponential", "nbinomc")
    if not arr and case["layout"] in ("array", "fortran", "view"):
        case = dict(case, layout="block")
    over = {}
    names = list(X.columns)
    P = P[names]
    label = (lambda c: names.index(c)) if arr else (lambda c: c)
    props = {label(c): int(f) for c, f in case["props"].items()}
    groups = [label(g[0]) if len(g) == 1 else tuple(label(c) for c in g) for g in case["groups"]]
    if mode == "exponential":
        over["standard_feature_groups"] = groups
        over["external_feature_groups"] = gen.groups_of(case, "ext")
    else:
        over["feature_groups"] = groups
    hier = None
    if case["params"].get("hier"):
        hier = [label(g[0]) if len(g) == 1 else tuple(label(c) for c in g) for g in case["params"]["hier"]]
        over["hierarchical_feature_groups"] = hier
    if case["w"] is not None:
        over["weight_column"] = label("W")
    if case["prior"] is not None and mode in gen.PRIOR_MODES:
        over["prior_prediction_column"] = label("PRIOR")
    smoothers = None
    if case["explicit"] and not arr:
        c = case["groups"][0][0]
        smoothers = {(c,): [onedim.WeightedMeanSmoother(), onedim.OrthogonalPolynomialSmoother(), onedim.BinValuesSmoother()][case["seed2"] % 3]}
        over["smoother_choice"] = SmootherChoiceGroupBy(
            use_regression_type=True, use_normalization=False, explicit_smoothers=smoothers
        )
    observers = [Silent()]
    X, P = layout(case, X), layout(case, P)
    y = target_form(case, gen.target(case), X)
    if not arr and {"fit_transform", "transform"} & set(case["calls"]):
        over["output_column"] = "OUT"
    args = dict(X=X, P=P, y=y, feature_properties=props, observers=observers)
    args.update({k: v for k, v in over.items() if k.endswith("groups")})
    if smoothers:
        args["explicit_smoothers"] = smoothers
    w = Watched(**args)
    est = gen.build(case, feature_properties=props, observers=observers, **over)
    w.check("the constructor")
    try:
        est.fit(X, y)
    except ConvergenceError:
        w.check("diverging training")
        raise Discard("diverged")
    w.check("fit")
    done = 1
    for call in case["calls"]:
        T = X if done % 2 else P
        if call == "refit":
            est.fit(X, y)
        elif call in ("transform", "fit_transform"):
            if arr or not over.get("output_column"):
                continue
            T = T.copy()
            before = T.copy()
            out = est.fit_transform(T, y) if call == "fit_transform" and done % 2 else est.transform(T)
            require(same(out.drop(columns="OUT"), before), "%s changes other columns than its output column" % call)
            require(same(T.drop(columns="OUT", errors="ignore"), before), "%s changes the table passed" % call)
        elif call == "contributions":
            est.get_feature_contributions(T)
        elif call == "predict_with_y":
            est.predict(X, y)
        elif call == "importances":
            est.get_feature_importances()
        elif call == "extended":
            if arr or mode in ("nbinomc", "exponential"):
                continue
            inf = {tuple(g): "even" if i % 2 else "odd" for i, g in enumerate(case["groups"])}
            w2 = Watched(influence=inf)
            est.predict_extended(T, inf)
            w2.check("predict_extended")
        elif call == "proba":
            if not hasattr(est, "predict_proba"):
                continue
            est.predict_proba(T)
        elif call == "own":
            # results belong to the caller: writing into them does not change the model
            a = gen.raw_predict(case, est, T)
            b = {k: np.array(v) for k, v in est.get_feature_contributions(T).items()}
            r = est.predict(T)
            if r.flags.writeable:
                r[...] = 0
            for v in est.get_feature_contributions(T).values():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 0
            require(np.array_equal(gen.raw_predict(case, est, T), a, equal_nan=True), "writing into a prediction changes the model")
            for k, v in est.get_feature_contributions(T).items():
                require(np.array_equal(v, b[k], equal_nan=True), "writing into contributions changes the model")
        else:
            est.predict(T)
        w.check(call)
        ctx.label(call)
        done += 1
    ctx.label("mode:" + mode)
    ctx.label("layout:" + case["layout"])
    ctx.label("target:" + case["yform"])
    ctx.mark(done > 1)


CALLS = ["predict", "contributions", "predict_with_y", "importances", "proba", "own", "transform", "fit_transform", "refit", "extended"]
LAYOUTS = ["frame", "frame", "ints", "index", "slice", "block", "array", "fortran", "view"]


@st.composite
def estimators(draw, modes):
    case = draw(gen.problems(modes=modes, hier=True, max_rows=40, max_iter=5, weights=("none", "int", "real", "huge")))
    case["layout"] = draw(st.sampled_from(LAYOUTS))
    case["yform"] = draw(st.sampled_from(["array", "array", "series", "ints", "strided"]))
    case["calls"] = draw(st.lists(st.sampled_from(CALLS), min_size=1, max_size=5))
    case["explicit"] = draw(st.integers(0, 4)) == 0
    case["seed2"] = draw(st.integers(0, 2**31 - 1))
    return case


def check_binner(case, ctx):
    X = bn.table(case)
    inplace = case["inplace"] and case["cls"] == "bins"
    cls = binning.BinNumberTransformer if case["cls"] == "bins" else binning.ECdfTransformer
    tr = bn.transformer(case, cls, **(dict(inplace=inplace) if case["cls"] == "bins" else {}))
    y = np.arange(len(X), dtype=float)
    w = Watched(X=X, n_bins=tr.n_bins, props=tr.feature_properties, y=y)
    declared = {bn.label(case, c) for c in bn.declared(case)}

    def others(T):
        if isinstance(T, pd.DataFrame):
            return T[[c for c in T.columns if c not in declared]]
        return T[:, [i for i in range(T.shape[1]) if i not in declared]]

    tr.fit(X, y)
    w.check("fit")
    done = 1
    for call in case["calls"]:
        if call == "fit":
            w = Watched(X=X, n_bins=tr.n_bins, props=tr.feature_properties, y=y)
            tr.fit(X, y)
            w.check(call)
        else:
            T = X.copy()
            w = Watched(X=T, n_bins=tr.n_bins, props=tr.feature_properties, y=y)
            out = tr.transform(T) if call == "transform" else tr.fit_transform(T, y)
            w.check(call, ("X", others) if inplace else None)
            if not inplace and isinstance(out, np.ndarray) and isinstance(T, np.ndarray) and declared:
                require(not np.shares_memory(out, T), "%s returns the caller's memory" % call)
            if not inplace and isinstance(out, pd.DataFrame):
                out.iloc[:, :] = 0
                w.check("writing into the result of " + call)
        ctx.label(call)
        done += 1
    ctx.label(case["cls"])
    if inplace:
        ctx.label("in place")
    ctx.mark(done > 1)


def binners():
    return st.tuples(
        bn.tables(max_rows=60), st.booleans(), st.sampled_from(["bins", "ecdf"]),
        st.lists(st.sampled_from(["fit", "transform", "fit_transform"]), min_size=1, max_size=4),
    ).map(lambda t: dict(t[0], inplace=t[1], cls=t[2], calls=t[3]))


def check_pipeline(case, ctx):
    mode = case["mode"]
    cls, kw = c31.settings(case, Silent())
    make = getattr(pipelines, "pipeline_" + c31.NAMES[mode])
    X = c31.raw_frame(case, gen.frame(case), "cols")
    P = c31.raw_frame(case, gen.pred_frame(case), "pred")
    y = target_form(case, gen.target(case), X)
    plain = {k: v for k, v in kw.items() if isinstance(v, (dict, list)) and k != "observers"}
    w = Watched(X=X, P=P, y=y, **plain)
    pipe = make(number_of_bins=case["n_bins"], **kw)
    try:
        pipe.fit(X, y)
    except ConvergenceError:
        w.check("diverging training")
        raise Discard("diverged")
    w.check("fit")
    for T in (X, P):
        pipe.predict(T)
        w.check("predict")
        if kw.get("output_column"):
            pipe.transform(T)
            w.check("transform")
    ctx.label("mode:" + mode)
    ctx.mark()


@st.composite
def raw_cases(draw, modes):
    case = draw(c31.raw_cases(modes))
    case["yform"] = draw(st.sampled_from(["array", "series", "ints", "strided"]))
    return case


def check_smoother(case, ctx):
    multi = "shape" in case
    rs = np.random.RandomState(case["seed2"])
    if multi:
        shape = tuple(case["shape"])
        d, n = len(shape), int(np.prod(shape))
        coords = np.array(np.unravel_index(np.arange(n), shape)).T.astype(float)
        y, s, w = (np.resize(np.array(case[k], dtype=float), n) for k in "ysw")
        at = np.array([[np.nan if v is None else v for v in r[:d]] for r in case["at"]], dtype=float).reshape(-1, d)
        est = c26.build(case["spec"], d)
    else:
        y = np.array(case["y"], dtype=float)
        n, d = len(y), 1
        coords = np.arange(n, dtype=float)[:, None]
        s, w = (np.array(case[k][:n], dtype=float) for k in "sw")
        at = np.array([np.nan if v is None else v for v in case["at"]], dtype=float)[:, None]
        if case["kind"] == "lsq":
            raise Discard("knots")
        est = c25.build(case)
    X = np.c_[coords, w, s]
    at = np.concatenate([coords, at])
    if case["order2"] == "F":
        X, at = np.asfortranarray(X), np.asfortranarray(at)
    elif case["order2"] == "view":
        X = np.hstack([X, X])[:, : X.shape[1]]
        y = np.repeat(y, 2)[::2]
    elif case["order2"] == "ints" and np.all(y == np.round(y)):
        y = y.astype("int64")
    before = copy.deepcopy((X, y, at))
    done = 0
    for k in range(2):
        for call in (lambda: est.fit(X, y), lambda: est.predict(at), lambda: est.predict(coords)):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    call()
                done += 1
            except Exception:
                ctx.label("rejected")
            require(same((X, y, at), before), "a smoother changes its arguments: %r, before %r" % ((X, y, at), before))
    ctx.label("%dd" % d)
    ctx.mark(done == 6)


def smoothers():
    return st.tuples(
        st.one_of(c25.cases(), c26.cases()), st.sampled_from(["C", "F", "view", "ints"]), st.integers(0, 999)
    ).map(lambda t: dict(t[0], order2=t[1], seed2=t[2]))


def check_chain(case, ctx):
    g, X, y = c29.table(case)
    X = pd.DataFrame(X, columns=["g", "row"], index=np.arange(len(X)) * 2 + 1) if case["frame"] else X
    w = Watched(X=X, y=y)
    c = c29.chain(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            c.fit(X, y)
        except (ValueError, IndexError):
            # no rows on one side of the median
            w.check("a rejected fit")
            raise Discard("rejected")
        w.check("fit")
        c.predict(X)
        w.check("predict")
    ctx.label("bound:" + case["bound"])
    ctx.mark()


def check_functions(case, ctx):
    y = np.array(case["y"], dtype=float)
    wt = np.array(case["w"], dtype=float)
    wt[0] = 1.0
    x = np.array(case["x"], dtype=float)
    b = np.array([np.nan if v is None else v for v in case["b"]], dtype=float)
    s = np.abs(x) + 0.5
    bi = np.where(np.isnan(b), 0, b).astype(np.int64)
    two = np.c_[bi, bi[::-1]].astype(np.int64)
    mat = np.outer(x, y)
    unc = np.abs(mat) + 1.0
    n_bins = np.array([5, 5])
    lst = list(np.abs(case["y"]))
    p = np.linspace(0.1, 0.9, max(4, min(len(y), 9)))
    v = np.cumsum(np.resize(np.abs(y) + 0.5, len(p)))
    w = Watched(y=y, wt=wt, x=x, b=b, s=s, bi=bi, two=two, mat=mat, unc=unc, n_bins=n_bins, lst=lst, p=p, v=v)
    q = case["q"]
    calls = {
        "calc_means_medians": lambda: utils.calc_means_medians(bi, y, wt),
        "calc_means_medians_unweighted": lambda: utils.calc_means_medians(bi, y),
        "calc_weighted_quantile": lambda: utils.calc_weighted_quantile(bi, y, wt, q),
        "weighted_stddev": lambda: utils.weighted_stddev(y, wt),
        "regularize_to_prior_expectation": lambda: utils.regularize_to_prior_expectation(y, s, x),
        "regularize_to_error_weighted_mean": lambda: utils.regularize_to_error_weighted_mean(y, s),
        "regularize_to_error_weighted_mean_prior": lambda: utils.regularize_to_error_weighted_mean(y, s, x),
        "neighbors": lambda: utils.regularize_to_error_weighted_mean_neighbors(y, s, 3),
        "neutralize": lambda: utils.neutralize_one_dim_influence(mat, unc),
        "linear_regression": lambda: utils.linear_regression(x, y, wt),
        "continuous_quantile": lambda: utils.continuous_quantile_from_discrete_pdf(y, q, wt),
        "linear_bins": lambda: utils.digitize(y, utils.calc_linear_bins(y, case["k"])),
        "lexicographic": lambda: utils.multidim_binnos_to_lexicographic_binnos(two, n_bins),
        "normalize": lambda: utils.get_normalized_values(lst),
        "slice_finite": lambda: utils.slice_finite_semi_positive(np.c_[b]),
        "not_seen": lambda: utils.not_seen_events(np.c_[b], wt, 5),
        "gaussian": lambda: qm.quantile_fit_gaussian(p, v)(p),
        "gamma": lambda: qm.quantile_fit_gamma(p, v)(p),
        "spline": lambda: qm.quantile_fit_spline(p, v)(p),
        "qpd": lambda: qm.J_QPD_S(0.2, v[0], v[1], v[2], 0.0).ppf(p),
        "qpd_cdf": lambda: qm.J_QPD_S(0.2, v[0], v[1], v[2], 0.0).cdf(v),
        "qpd_b": lambda: qm.J_QPD_B(0.2, v[:-2], v[1:-1], v[2:], 0.0, float(v[-1]) + 1.0).ppf(0.3),
        "ext": lambda: qm.J_QPD_extended_U(0.2, v[:-2], v[1:-1], v[2:]).ppf(0.3),
        "bounds": lambda: qm.transform_from_bounds(v, 0.0, float(v[-1])),
        "bounds_back": lambda: qm.back_transform_in_bounds(y / 1e4, 0.0, 2.0),
        "semi": lambda: qm.transform_from_semibound_lower(v, float(v[0])),
        "semi_back": lambda: qm.back_transform_in_semibound_lower(y / 1e4, 0.0),
        "semi_upper": lambda: qm.transform_from_semibound_upper(v, float(v[-1])),
        "semi_upper_back": lambda: qm.back_transform_in_semibound_upper(y / 1e4, 0.0),
    }
    done = 0
    for name in case["calls"]:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                calls[name]()
            done += 1
        except Exception:
            ctx.label("rejected:" + name)
        w.check(name)
        ctx.label(name)
    ctx.mark(done > 1)


FUNCS = [
    "calc_means_medians", "calc_means_medians_unweighted", "calc_weighted_quantile", "weighted_stddev", "regularize_to_prior_expectation",
    "regularize_to_error_weighted_mean", "regularize_to_error_weighted_mean_prior", "neighbors", "neutralize",
    "linear_regression", "continuous_quantile", "linear_bins", "lexicographic", "normalize", "slice_finite", "not_seen",
    "gaussian", "gamma", "spline", "qpd", "qpd_cdf", "qpd_b", "ext", "bounds", "bounds_back", "semi", "semi_back",
    "semi_upper", "semi_upper_back",
]


def functions():
    return st.tuples(c33.arrays(4), st.lists(st.sampled_from(FUNCS), min_size=2, max_size=6, unique=True)).map(
        lambda t: dict(t[0], calls=t[1])
    )


SUBS = [
    Sub("estimators_fast", lambda: estimators(gen.FAST), check_estimator, 700),
    Sub("estimators_slow", lambda: estimators(gen.SLOW + ["nbinomc", "nbinomc", "exponential", "exponential"]), check_estimator, 160),
    Sub("binners", binners, check_binner, 700, shrink_rows=False),
    Sub("pipelines", lambda: raw_cases(gen.FAST + ["nbinomc", "exponential"]), check_pipeline, 130),
    Sub("smoothers", smoothers, check_smoother, 1200, shrink_rows=False),
    Sub("chain", c29.chains, check_chain, 200, shrink_rows=False),
    Sub("functions", functions, check_functions, 1200, shrink_rows=False),
]
