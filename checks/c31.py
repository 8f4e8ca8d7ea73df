"""C31: ready-made pipelines equal binning plus the estimator with the same settings."""
import inspect

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from cyclic_boosting import binning, pipelines
from cyclic_boosting.observers import BaseObserver
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C31"
RULE = (
    "a case is a generated raw data set with a full set of settings for one ready-made pipeline; non-trivial = training "
    "converged and the predictions are not all equal"
)

NAMES = {
    "poisson": "CBPoissonRegressor",
    "nbinom": "CBNBinomRegressor",
    "classifier": "CBClassifier",
    "location": "CBLocationRegressor",
    "locpoisson": "CBLocPoissonRegressor",
    "gbs": "CBGBSRegressor",
    "exponential": "CBExponential",
    "nbinomc": "CBNBinomC",
    "mquantile": "CBMultiplicativeQuantileRegressor",
    "aquantile": "CBAdditiveQuantileRegressor",
    "mgeneric": "CBMultiplicativeGenericCRegressor",
    "ageneric": "CBAdditiveGenericCRegressor",
    "gclassifier": "CBGenericClassifier",
}


class Watcher(BaseObserver):
    def __init__(self):
        self.calls = []

    def observe_iterations(self, iteration, *args, **kwargs):
        self.calls.append(iteration)

    def observe_feature_iterations(self, *args, **kwargs):
        pass


@st.composite
def raw_cases(draw, modes):
    case = draw(gen.problems(modes=modes, gaps=True, hier=True, max_rows=70, max_bins=8, wide_prior=False))
    rs = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    raw = {}
    for c in case["cols"]:
        kind = draw(st.sampled_from(["float", "int", "offset"]))
        raw[c] = {"kind": kind, "noise": rs.uniform(size=max(len(case["y"]), 12)).tolist()}
    case["raw"] = raw
    case["n_bins"] = draw(st.sampled_from([100, 3, 7, 2]))
    case["inplace"] = draw(st.booleans())
    case["table"] = draw(st.sampled_from(["frame", "frame", "shuffled"]))
    case["given"] = draw(st.sampled_from(["all", "all", "some"]))
    case["drop"] = rs.uniform(size=40).tolist()
    if case["mode"] == "exponential":
        case["params"]["var_prior_exponent"] = draw(st.sampled_from([0.1, 0.03, 2.0]))
    if draw(st.booleans()):
        case["params"]["output_column"] = "OUT"
    if draw(st.integers(0, 3)) == 0:
        case["props"] = {k: v for k, v in case["props"].items()}
    return case


def raw_frame(case, X, which):
    for c, r in case["raw"].items():
        if c not in X:
            continue
        v = X[c].values.copy()
        v[v < 0] = np.nan
        noise = np.asarray(r["noise"])[: len(v)]
        if r["kind"] == "float" and not case["props"][c] & 6:  # neither ordered nor unordered categories
            v = v * 2.5 + noise
        elif r["kind"] == "offset":
            v = v * 3 + 17
        X[c] = v
    if case["table"] == "shuffled":
        X.index = np.random.RandomState(5).permutation(len(X)) * 3 + 1
    return X


def train(obj, X, y):
    try:
        obj.fit(X, y)
    except ConvergenceError:
        raise Discard("diverged")
    return obj


def settings(case, watcher):
    est = gen.build(case)
    kw = {k: v for k, v in est.get_params(deep=False).items()}
    accepted = set(inspect.signature(pipelines.pipeline_CB).parameters)
    kw = {k: v for k, v in kw.items() if k in accepted}
    kw["observers"] = [watcher]
    if case["given"] == "some":
        # settings that were left out take the defaults stated by the pipeline
        always = {"feature_properties", "feature_groups", "observers", "costs", "quantile", "mean_prediction_column", "external_colname"}
        always |= {"standard_feature_groups", "external_feature_groups", "maximal_iterations"}
        kw = {k: v for (k, v), r in zip(sorted(kw.items()), case["drop"]) if k in always or r < 0.6}
    return type(est), kw


def check(case, ctx):
    mode = case["mode"]
    w1, w2 = Watcher(), Watcher()
    cls, kw = settings(case, w1)
    make = getattr(pipelines, "pipeline_" + NAMES[mode])
    pipe = make(number_of_bins=case["n_bins"], inplace=case["inplace"], **kw)
    y = gen.target(case)

    # the same by hand
    hand_kw = {
        k: p.default
        for k, p in inspect.signature(pipelines.pipeline_CB).parameters.items()
        if k in inspect.signature(cls.__init__).parameters
    }
    hand_kw.update(kw)
    hand_kw["observers"] = [w2]
    binner = binning.BinNumberTransformer(n_bins=case["n_bins"], feature_properties=kw["feature_properties"])
    X = raw_frame(case, gen.frame(case), "cols")
    P = raw_frame(case, gen.pred_frame(case), "pred")
    train(pipe, X.copy(), y.copy())
    binned = binner.fit_transform(X.copy(), y.copy())
    est = train(cls(**hand_kw), binned, y.copy())

    for name, T in (("training rows", X), ("new rows", P)):
        b = binner.transform(T.copy())
        for call in ("predict", "predict_proba", "transform"):
            if call == "predict_proba" and mode not in ("classifier", "gclassifier"):
                continue
            if call == "transform" and not kw.get("output_column"):
                continue
            if not hasattr(est, call):
                continue
            got = getattr(pipe, call)(T.copy())
            exp = getattr(est, call)(b.copy())
            if isinstance(exp, pd.DataFrame):
                require(isinstance(got, pd.DataFrame) and list(got.columns) == list(exp.columns), "%s columns differ" % call)
                got, exp = got.values, exp.values
            same = np.array_equal(np.asarray(got, dtype=float), np.asarray(exp, dtype=float), equal_nan=True)
            if not same:
                d = np.abs(np.asarray(got, dtype=float) - np.asarray(exp, dtype=float))
                require(
                    np.nanmax(d) <= 1e-9 * max(1.0, float(np.nanmax(np.abs(exp)))) and np.array_equal(np.isnan(got), np.isnan(exp)),
                    "%s of %s: pipeline %r, by hand %r" % (call, name, np.asarray(got).ravel()[:6], np.asarray(exp).ravel()[:6]),
                )
            ctx.label("call:" + call)
    require(w1.calls == w2.calls and len(w1.calls) > 0, "observers: %r in the pipeline, %r by hand" % (w1.calls, w2.calls))
    steps = [s for _, s in pipe.steps]
    last = steps[-1].get_params(deep=False)
    for k, v in kw.items():
        require(k in last and (last[k] is v or last[k] == v), "setting %s is %r, passed %r" % (k, last.get(k), v))
    require(type(steps[-1]) is cls, "the pipeline trains %s" % type(steps[-1]).__name__)
    ctx.label("mode:" + mode)
    ctx.label("bins:%d" % case["n_bins"])
    if case["inplace"]:
        ctx.label("in place")
    if case["params"].get("hier"):
        ctx.label("hierarchical")
    p = np.asarray(est.predict(binner.transform(X.copy())))
    ctx.mark(len(np.unique(p)) > 1)


SUBS = [
    Sub("fast", lambda: raw_cases(gen.FAST), check, 420),
    Sub("special", lambda: raw_cases(["exponential", "nbinomc", "exponential"]), check, 250),
    Sub("slow", lambda: raw_cases(gen.SLOW), check, 90),
]
