"""C02: predictions made during training equal later predictions."""
import numpy as np

from cbv import gen
from cbv.core import Discard, Sub, Violation, require
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C02"
RULE = (
    "a case is a generated training problem; non-trivial = training converged and the in-sample predictions are not "
    "all equal"
)
TOL = 1e-8


class Recorder:
    """Observer that keeps a copy of every prediction it is shown."""

    def __init__(self):
        self.calls = []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.calls.append((iteration, np.array(prediction, dtype=float)))

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        pass


def close(mode, a, b, y, tol=TOL):
    scale = max(1.0, float(np.max(np.abs(y)))) if mode in gen.ADD else 0.0
    if mode in gen.LOGIT:
        return bool(np.all(np.abs(a - b) <= tol))
    return gen.rel(a, b, max(scale, 1e-300)) <= tol


def check_observer(case, ctx):
    mode = case["mode"]
    rec = Recorder()
    X, y = gen.frame(case), gen.target(case)
    est = gen.build(case, observers=[rec])
    try:
        est.fit(X, y)
    except ConvergenceError:
        raise Discard("diverged")
    pred = gen.raw_predict(case, est, gen.frame(case))
    require(len(rec.calls) > 0 and rec.calls[-1][0] == -1, "no observer call after training")
    last = rec.calls[-1][1]
    if mode == "locpoisson":
        last = np.where(last > 0, last, 0)
    require(close(mode, last, pred, y), "training ended with predictions %r, predict returns %r" % (last[:5], pred[:5]))
    ctx.label(mode)
    ctx.mark(len(np.unique(pred)) > 1)


def check_fit_transform(case, ctx):
    mode = case["mode"]
    y = gen.target(case)
    case = dict(case, params=dict(case["params"], output_column="OUT"))
    est = gen.build(case)
    X1 = gen.frame(case)
    try:
        X1 = est.fit_transform(X1, y)
    except ConvergenceError:
        raise Discard("diverged")
    X2 = est.transform(gen.frame(case))
    require("OUT" in X1.columns and "OUT" in X2.columns, "output column missing")
    base_cols = list(gen.frame(case).columns)
    require(
        X1[base_cols].equals(gen.frame(case)) and X2[base_cols].equals(gen.frame(case)),
        "transforming changes other columns",
    )
    a, b = X1["OUT"].values, X2["OUT"].values
    ref = gen.fit(case)
    require(ref is not None, "fit diverges where fit_transform does not")
    if mode == "classifier":
        # hard labels; a probability within rounding of one half may go either way
        p = ref.predict_proba(gen.frame(case))[:, 1]
        sure = np.abs(p - 0.5) > 1e-9
        require(np.array_equal(a[sure], b[sure]), "fit_transform %r, transform %r" % (a[:5], b[:5]))
    else:
        require(close(mode, a, b, y), "fit_transform %r, transform %r" % (a[:5], b[:5]))
    require(close(mode, b, np.asarray(ref.predict(gen.frame(case))), y), "transform differs from predict")
    ctx.label(mode)
    ctx.mark(len(np.unique(b)) > 1)


KINDS = ("count", "count", "real", "sparse", "const", "spike")
SUBS = [
    Sub("observer_fast", lambda: gen.problems(modes=gen.FAST, kinds=KINDS, max_iter=10, hier=True, weights=("none", "int", "real", "huge")), check_observer, 1500),
    Sub("observer_slow", lambda: gen.problems(modes=gen.SLOW, hier=True), check_observer, 240),
    Sub("observer_special", lambda: gen.problems(modes=["nbinomc", "exponential"], max_iter=8), check_observer, 320),
    Sub("observer_large", lambda: gen.problems(modes=gen.ALL, hier=True, **gen.LARGE), check_observer, 48),
    Sub("fit_transform", lambda: gen.problems(modes=gen.FAST * 2 + gen.ALL), check_fit_transform, 560),
]
