"""C36: invalid use is rejected instead of producing a model."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from cyclic_boosting import flags
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer
from cyclic_boosting.smoothing import extrapolate, multidim, onedim
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C36"
RULE = (
    "a case is a valid training problem (or table to bin) into which one fault is injected; non-trivial = the same "
    "problem without the fault is accepted"
)


def rejected(call):
    try:
        call()
    except Exception:
        return True
    return False


def uses(case, est, X):
    out = [
        ("predict", lambda: gen.raw_predict(case, est, X.copy())),
        ("predict_extended", lambda: est.predict_extended(X.copy(), None)),
        ("get_feature_contributions", lambda: est.get_feature_contributions(X.copy())),
        ("get_feature_importances", lambda: est.get_feature_importances()),
        ("transform", lambda: est.transform(X.copy())),
    ]
    return out


def invalid_values(mode):
    out = ["nan", "inf", "-inf"]
    if mode in gen.MULT + ["nbinomc"]:
        out += ["negative", "tiny negative"]
    if mode in ("classifier", "gclassifier"):
        out += ["half", "two", "-one", "near one"]
    return out


BAD = {
    "nan": np.nan, "inf": np.inf, "-inf": -np.inf, "negative": -3.0, "tiny negative": -1e-9, "half": 0.5, "two": 2.0,
    "-one": -1.0, "near one": 1 - 1e-9,
}


def faulty(case):
    """X, y after the injected fault."""
    X, y = gen.frame(case), gen.target(case)
    kind, n = case["fault"]
    if kind in BAD:
        y = y.astype(float)
        y[n % len(y)] = BAD[kind]
    elif kind == "short":
        y = y[: len(y) - 1 - n % (len(y) - 1)]
    elif kind == "long":
        y = np.r_[y, y[: 1 + n % len(y)]]
    elif kind == "no data":
        X, y = X.iloc[:0], y[:0]
    elif kind == "no rows":
        X = X.iloc[:0]
    elif kind == "no target":
        y = y[:0]
    else:
        cols = needed(case)
        X = X.drop(columns=cols[n % len(cols)])
    return X, y


def needed(case):
    """Columns the estimator was told to use in training."""
    out = sorted({c for g in case["groups"] + (case.get("ext") or []) for c in g})
    if case["w"] is not None:
        out.append("W")
    if case.get("prior") is not None and case["mode"] in gen.PRIOR_MODES:
        out.append("PRIOR")
    return out + sorted(case.get("extra") or {})


def needed_later(case):
    # the shape parameter is predicted without the mean
    return [c for c in needed(case) if c not in ("W", "MU")]


def check_fit(case, ctx):
    mode, kind = case["mode"], case["fault"][0]
    X, y = gen.frame(case), gen.target(case)
    P = gen.pred_frame(case)
    P = P if len(P) else X
    over = {"output_column": "OUT"}
    good = gen.build(case, **over)
    try:
        good.fit(X.copy(), y.copy())
    except ConvergenceError:
        raise Discard("diverged")
    before = gen.raw_predict(case, good, P.copy())

    # a new object
    est = gen.build(case, **over)
    for name, call in uses(case, est, P):
        require(rejected(call), "%s works before training" % name)
    if case["via"] == "fit":
        train = lambda e: e.fit(*faulty(case))
    else:
        train = lambda e: e.fit_transform(*faulty(case))
    require(rejected(lambda: train(est)), "training (%s) accepts the fault %r" % (case["via"], kind))
    require(rejected(lambda: gen.raw_predict(case, est, P.copy())), "predicts after a rejected training (%r)" % kind)
    require(rejected(lambda: est.transform(P.copy())), "transforms after a rejected training (%r)" % kind)

    # an already trained one must not end up with something else
    require(rejected(lambda: train(good)), "a second training (%s) accepts the fault %r" % (case["via"], kind))
    if kind in BAD or kind in ("no data", "no rows", "no target"):
        try:
            after = gen.raw_predict(case, good, P.copy())
        except Exception:
            after = before
        require(np.array_equal(after, before, equal_nan=True), "a rejected training (%r) changed the predictions" % kind)
    # and can be trained properly afterwards
    est.fit(X.copy(), y.copy())
    again = gen.raw_predict(case, est, P.copy())
    require(np.array_equal(again, before, equal_nan=True), "training after a rejected one: %r instead of %r" % (again[:4], before[:4]))
    ctx.label("fault:" + kind)
    ctx.label("mode:" + mode)
    ctx.mark(True)


@st.composite
def fits(draw, modes):
    case = draw(gen.problems(modes=modes, min_rows=4, max_rows=25, max_bins=4, priors=(False, True), hier=True))
    case["params"] = dict(case["params"], max_iter=min(case["params"]["max_iter"], 3))
    kinds = invalid_values(case["mode"]) * 2 + ["short", "long", "no data", "no rows", "no target"] + ["column"] * 4
    case["fault"] = [draw(st.sampled_from(kinds)), draw(st.integers(0, 1000))]
    case["via"] = draw(st.sampled_from(["fit", "fit", "fit_transform"]))
    return case


def check_use(case, ctx):
    """Faults when using a trained model."""
    P = gen.pred_frame(case)
    if not len(P):
        P = gen.frame(case)
    est = gen.fit(case, output_column="OUT")
    if est is None:
        raise Discard("diverged")
    before = gen.raw_predict(case, est, P.copy())
    ok = est.transform(P.copy())
    require("OUT" in ok.columns and len(ok) == len(P), "transform writes no output")
    cols = needed_later(case)
    features = {f for g in case["groups"] + (case.get("ext") or []) for f in g}
    c = cols[case["n"] % len(cols)]
    Q = P.drop(columns=c)
    for name, call in uses(case, est, Q):
        # contributions of features do not depend on the base value
        if name != "get_feature_importances" and not (name == "get_feature_contributions" and c not in features):
            require(rejected(call), "%s works without the column %s" % (name, c))
    require(rejected(lambda: est.transform(P.assign(OUT=1.0))), "transform overwrites an existing column")
    require(rejected(lambda: est.transform(P.values)), "transform accepts an array")
    require(rejected(lambda: est.fit_transform(gen.frame(case).assign(OUT=1.0), gen.target(case))), "fit_transform overwrites an existing column")
    plain = gen.build(case)
    plain.fit(gen.frame(case), gen.target(case))
    require(rejected(lambda: plain.transform(P.copy())), "transform works without output column")
    require(rejected(lambda: gen.build(case).fit_transform(gen.frame(case), gen.target(case))), "fit_transform works without output column")
    if case["mode"] not in ("nbinomc", "exponential"):
        names = [" ".join(g) for g in case["groups"]]
        cat = {(tuple(g) if len(g) > 1 else g[0]): "k%d" % (i % 2) for i, g in enumerate(case["groups"])}
        full = est.predict_extended(P.copy(), dict(cat))
        del full
        cat.pop(sorted(cat, key=str)[case["n"] % len(names)])
        require(rejected(lambda: est.predict_extended(P.copy(), cat)), "influence categories without %r accepted" % (names,))
    require(rejected(lambda: gen.build(case, smoother_choice="smooth")), "any object is accepted as smoother choice")
    after = gen.raw_predict(case, est, P.copy())
    require(np.array_equal(after, before, equal_nan=True), "rejected calls changed the predictions")
    ctx.label("mode:" + case["mode"])
    ctx.label("without:" + ("feature" if c in features else c))
    ctx.mark(True)


@st.composite
def usages(draw):
    case = draw(gen.problems(modes=gen.ALL, min_rows=4, max_rows=25, max_bins=4, priors=(False, True)))
    case["params"] = dict(case["params"], max_iter=min(case["params"]["max_iter"], 3))
    case["n"] = draw(st.integers(0, 1000))
    return case


# settings outside their documented values


def settings_faults(case):
    """Faults of settings with a valid counterpart: name -> (wrong, right)."""
    from cyclic_boosting import CBExponential, CBPoissonRegressor, common_smoothers, observers, pipelines
    from cyclic_boosting import quantile_matching as qm
    from cyclic_boosting.features import FeatureID
    from cyclic_boosting.smoothing import meta_smoother

    n, k = case["n"], case["k"]
    X = pd.DataFrame({c: np.arange(n) % (k + 1.0) for c in "abc"})
    X["PR"] = 0.5 + np.arange(n) % 3 / 4.0
    y = 1.0 + np.arange(n) % 4
    choices = [common_smoothers.SmootherChoiceWeightedMean, common_smoothers.SmootherChoiceGroupBy]
    choice = choices[k % 2]
    sm = [onedim.WeightedMeanSmoother, onedim.IsotonicRegressor, onedim.BinValuesSmoother][k % 3]()
    groups = [["a"], ["b", "a"], [("a", "c"), "b"]][k % 3]

    def model(g):
        return lambda: CBPoissonRegressor(feature_groups=g, maximal_iterations=2).fit(X.copy(), y)

    def price(std, ext):
        return lambda: CBExponential("PR", std, ext, maximal_iterations=2).fit(X.copy(), y)

    Z = np.c_[np.arange(4.0), np.arange(4.0) % 2, np.ones(4), np.ones(4)]
    grid = np.c_[np.arange(4.0) // 2, np.arange(4.0) % 2, np.ones(4), np.ones(4)]
    external = FeatureID(("b",), "external")
    line = np.c_[np.arange(float(n)), np.ones(n), np.ones(n)]
    q = np.array([0.1, 0.3, 0.5, 0.7, 0.9])
    qpd, bounds = [(qm.J_QPD_S, dict(l=0.0)), (qm.J_QPD_B, dict(l=0.0, u=9.0))][k % 2]
    return {
        "no feature groups": (model([]), model(groups)),
        "key of explicit smoothers": (
            lambda: choice(explicit_smoothers={"a": sm}), lambda: choice(explicit_smoothers={("a",): sm})),
        "explicit smoothers": (
            lambda: choice(explicit_smoothers={("a",): [None, "x", k, type(sm)][k % 4]} | ({("b",): sm} if k % 3 else {})), lambda: choice(explicit_smoothers={("a", "b"): sm})),
        "observed iteration": (lambda: observers.PlottingObserver(iteration=0), lambda: observers.PlottingObserver(iteration=k - 10)
                               if k != 10 else None),
        "seasonal order": (lambda: onedim.SeasonalSmoother(order=[0, 4 + k, -k - 1][k % 3]), lambda: onedim.SeasonalSmoother(order=1 + k % 3)),
        "regression type": (
            lambda: meta_smoother.RegressionTypeSmoother(sm, ["all", 3.5, None, -1][k % 4]),
            lambda: meta_smoother.RegressionTypeSmoother(sm, meta_smoother.RegressionType.discontinuous)),
        "bins": (lambda: BinNumberTransformer(n_bins=[1, 0, -k - 1][k % 3], feature_properties={"a": 1}).fit(X.copy()),
                 lambda: BinNumberTransformer(n_bins=2 + k, feature_properties={"a": 1}).fit(X.copy())),
        "neutralized dimensions": (
            lambda: multidim.Neutralize2DMetaSmoother(multidim.WeightedMeanSmoother()).fit(Z[:, 1:], Z[:, 0]),
            lambda: multidim.Neutralize2DMetaSmoother(multidim.WeightedMeanSmoother()).fit(grid, Z[:, 0])),
        "smoothed dimensions": (
            lambda: multidim.PriorExpectationMetaSmoother(multidim.WeightedMeanSmoother(), 0.0).fit(Z[:, 1:], Z[:, 0]),
            lambda: multidim.PriorExpectationMetaSmoother(multidim.WeightedMeanSmoother(), 0.0).fit(grid, Z[:, 0])),
        "standard groups": (price([None, [external]][k % 2], ["b"]), price(["a"], ["b"])),
        "external groups": (price(["a"], [FeatureID(("b",), None)]), price(["a"], [external])),
        "spline degree": (
            lambda: onedim.LSQUnivariateSpline([n / 2 - 0.25], degree=[6 + k, n, n + k][k % 3]).fit(line, y),
            lambda: onedim.LSQUnivariateSpline([n / 2 - 0.25], degree=1 + k % 3).fit(line, y)),
        "univariate spline degree": (
            lambda: onedim.UnivariateSplineSmoother(k=[6 + k, n + 1, n + k + 1][k % 3]).fit(line, y),
            lambda: onedim.UnivariateSplineSmoother(k=1 + k % 3).fit(line, y)),
        "shape bound": (
            lambda: qm.fit_sinhlogistic_shape(0.2, 0.0, 9.0, ["X", "", "s", None][k % 4], y),
            lambda: qm.fit_sinhlogistic_shape(0.2, 0.0, 9.0, "SBU"[k % 3], y)),
        "distribution version": (
            lambda: qpd(0.2, 1.0, 2.0, 4.0, **bounds, version=["gauss", "", None][k % 3]),
            lambda: qpd(0.2, 1.0, 2.0, 4.0, **bounds, version=["normal", "logistic"][k // 2 % 2])),
        "quantile order": (
            lambda: qpd(0.2, *[(2.0, 1.0, 4.0), (1.0, 4.0, 2.0), (4.0, 2.0, 1.0)][k % 3], **bounds),
            lambda: qpd(0.2, 1.0, 2.0, 4.0, **bounds)),
        "quantile order of arrays": (
            lambda: qpd(0.2, np.ones(n), np.r_[2 * np.ones(n - 1), 0.5], 4 * np.ones(n), **bounds),
            lambda: qpd(0.2, np.ones(n), np.r_[2 * np.ones(n - 1), 1.5], 4 * np.ones(n), **bounds)),
        "mode of a fit": (
            lambda: [qm.quantile_fit_gaussian, qm.quantile_fit_gamma][k % 2](q, 1 + q, mode=["pdf", "", None][k % 3]),
            lambda: [qm.quantile_fit_gaussian, qm.quantile_fit_gamma][k % 2](q, 1 + q, mode=["ppf", "cdf", "dist"][k % 3])),
        "pipeline": (lambda: pipelines.pipeline_CB([None, "poisson", onedim.BinValuesSmoother, dict][k % 4]), lambda: pipelines.pipeline_CBPoissonRegressor()),
    }


def check_settings(case, ctx):
    faults = settings_faults(case)
    name = sorted(faults)[case["which"] % len(faults)]
    wrong, right = faults[name]
    right()
    require(rejected(wrong), "invalid setting accepted: %s" % name)
    ctx.label("setting:" + name)
    ctx.mark(True)


# --------------------------------------------------------------------------


SMOOTHERS = {
    "values": (1, onedim.BinValuesSmoother), "univariate": (1, onedim.UnivariateSplineSmoother),
    "wmean": (1, onedim.WeightedMeanSmoother), "neighbours": (1, onedim.WeightedMeanSmootherNeighbors),
    "prior": (1, lambda: onedim.RegularizeToPriorExpectationSmoother(0.0)),
    "ortho": (1, onedim.OrthogonalPolynomialSmoother), "seasonal": (1, onedim.SeasonalSmoother),
    "poly": (1, lambda: onedim.PolynomialSmoother(2)), "lsq": (1, lambda: onedim.LSQUnivariateSpline(interior_knots=[0.5])),
    "isotonic": (1, onedim.IsotonicRegressor), "linear": (1, extrapolate.LinearExtrapolator),
    "values2": (2, multidim.BinValuesSmoother), "wmean2": (2, multidim.WeightedMeanSmoother),
    "prior2": (2, lambda: multidim.RegularizeToPriorExpectationSmoother(0.0)),
}


def table(case):
    X = pd.DataFrame({k: np.array([np.nan if v is None else v for v in col], dtype=float) for k, col in case["table"].items()})
    return X if case["frame"] else X.values


def check_tools(case, ctx):
    X = table(case)
    cls = {"bins": BinNumberTransformer, "cdf": ECdfTransformer}[case["tool"]]
    weight = None if case["weight"] is None else (case["weight"] if case["frame"] else list(case["table"]).index(case["weight"]))
    make = lambda **k: cls(**dict(dict(n_bins=case["n_bins"], weight_column=weight), **k))
    fresh = make()
    require(rejected(lambda: fresh.transform(X.copy())), "transform works before fit")
    require(rejected(lambda: fresh.fit(X[:0])), "fit accepts an empty table")
    require(rejected(lambda: fresh.transform(X.copy())), "transform works after a rejected fit")
    require(rejected(lambda: make(weight_column="absent" if case["frame"] else 17).fit(X.copy())), "fit accepts an absent weight column")
    props = {c if case["frame"] else i: flags.IS_CONTINUOUS for i, c in enumerate(case["table"])}
    make(feature_properties=props).fit(X.copy())
    wrong = [flags.IS_CONTINUOUS | flags.IS_ORDERED, flags.IS_CONTINUOUS | flags.IS_UNORDERED, flags.IS_ORDERED | flags.IS_UNORDERED]
    which = [c for c in props if c != weight][case["n"] % (len(props) - (weight is not None))]
    bad = make(feature_properties=props | {which: wrong[case["n"] % 3]})
    require(rejected(lambda: bad.fit(X.copy())), "fit accepts contradictory feature properties")
    t = make().fit(X.copy())
    t.transform(X.copy())
    cols = [c for c in case["table"] if c != case["weight"]]
    drop = cols[case["n"] % len(cols)]
    if len(cols) > 1 and (case["frame"] or case["weight"] is None):
        Q = X.drop(columns=drop) if case["frame"] else np.delete(X, list(case["table"]).index(drop), axis=1)
        require(rejected(lambda: t.transform(Q)), "transform accepts a table without column %s" % drop)
    Q = X.assign(more=1.0) if case["frame"] else np.c_[X, np.ones(len(X))]
    require(rejected(lambda: t.transform(Q)), "transform accepts an additional column")
    name = case["smoother"]
    dim, f = SMOOTHERS[name]
    s = f()
    Z = np.zeros((len(X), dim + 2))
    require(rejected(lambda: s.predict(Z[:, :dim])), "smoother %s predicts before fit" % name)
    ctx.label("tool:" + case["tool"])
    ctx.label("smoother:" + name)
    ctx.mark(True)


@st.composite
def tools(draw):
    n = draw(st.integers(1, 12))
    val = st.one_of(st.floats(-10, 10), st.integers(-3, 3).map(float))
    names = ["a", "b", "c"][: draw(st.integers(1, 3))]
    t = {c: draw(st.lists(val, min_size=n, max_size=n)) for c in names}
    weight = draw(st.sampled_from([None, "w"]))
    if weight:
        t["w"] = draw(st.lists(st.floats(0.1, 5), min_size=n, max_size=n))
    return {
        "table": t, "frame": draw(st.booleans()), "weight": weight, "tool": draw(st.sampled_from(["bins", "cdf"])),
        "n_bins": draw(st.integers(2, 5)), "n": draw(st.integers(0, 100)), "smoother": draw(st.sampled_from(sorted(SMOOTHERS))),
    }


SUBS = [
    Sub("fit", lambda: fits(gen.FAST + ["nbinomc", "exponential"]), check_fit, 500),
    Sub("fit_slow", lambda: fits(gen.SLOW), check_fit, 160),
    Sub("use", usages, check_use, 200),
    Sub("settings", lambda: st.fixed_dictionaries({"which": st.integers(0, 200), "k": st.integers(0, 20), "n": st.integers(6, 40)}),
        check_settings, 500, shrink_rows=False),
    Sub("tools", tools, check_tools, 600),
]
