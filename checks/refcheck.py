"""Comparison of an estimator with the reference execution (C10-C12)."""
import copy

import numpy as np

from cbv import gen, ref
from cbv.core import Discard, require
from cyclic_boosting.utils import ConvergenceError

# rounding differences are amplified by the cyclic loop; more than this
# means a different model
TOL = 1e-7


def smoother_factory(case):
    """Smoothers as the library chooses them for each feature group."""
    from cyclic_boosting import common_smoothers as cs

    name = case["params"].get("smoother", "default")
    if name == "none":
        return None
    choice = gen.get_smoother_choice(name)
    if choice is None:
        choice = cs.SmootherChoiceWeightedMean()

    def make(group):
        return copy.deepcopy(choice.choice_fct(tuple(group), tuple(case["props"][c] for c in group), None))

    return make


def reference(case, tol_stop=1e-9):
    try:
        return ref.RefModel(case, smoother_factory(case), tol_stop).fit()
    except ref.Diverged:
        raise Discard("diverged")
    except ref.Borderline as b:
        raise Discard("borderline: %s" % b)


def perturbed(case, k):
    """The same problem with targets moved by rounding-size amounts."""
    c = dict(case)
    rs = np.random.RandomState(k)
    n = len(case["y"])
    if case["mode"] == "nbinomc":
        c["extra"] = {"MU": [v * (1 + 1e-12 * e) for v, e in zip(case["extra"]["MU"], rs.uniform(-1, 1, size=n))]}
        return c
    w = case["w"] if case.get("w") is not None else [1.0] * n
    c["w"] = [v * (1 + 1e-12 * e) for v, e in zip(w, rs.uniform(-1, 1, size=n))]
    if case["mode"] != "classifier":
        c["y"] = [v * (1 + 1e-12 * e) for v, e in zip(case["y"], rs.uniform(-1, 1, size=n))]
    return c


def deviation(mode, a, b, y):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if mode in gen.ADD:
        return gen.rel(a, b, max(1e-12, float(np.max(np.abs(y)))))
    if mode in gen.LOGIT:
        return float(np.max(np.abs(a - b))) if a.shape == b.shape else np.inf
    return gen.rel(a, b, 1e-300)


def compare(case, ctx, what, got, exp, y, model_values):
    """Require equality unless the problem itself is ill-conditioned."""
    d = deviation(case["mode"], got, exp, y)
    if d <= TOL:
        return
    worst = 0.0
    for k in range(8):
        other = model_values(reference(perturbed(case, k)))
        dd = deviation(case["mode"], other, exp, y)
        worst = max(worst, dd)
    if worst > TOL * 1e-2:
        raise Discard("ill-conditioned")
    require(False, "%s: got %r, reference %r (deviation %.3g)" % (what, np.asarray(got)[:6], np.asarray(exp)[:6], d))


def check_against_reference(case, ctx):
    mode = case["mode"]
    model = reference(case)
    y = gen.target(case)
    X, P = gen.frame(case), gen.pred_frame(case)
    est = gen.build(case)
    try:
        est.fit(gen.frame(case), gen.target(case))
    except ConvergenceError:
        require(False, "training diverges where the documented algorithm does not")
    compare(case, ctx, "training rows", gen.raw_predict(case, est, X), model.predict(X), y, lambda m: m.predict(X))
    compare(case, ctx, "new rows", gen.raw_predict(case, est, P), model.predict(P), y, lambda m: m.predict(P))
    con = est.get_feature_contributions(P)
    exp = model.contributions(P)
    require(set(con) == set(exp), "feature groups %r, expected %r" % (sorted(con), sorted(exp)))
    for g in exp:
        e = gen.unlink(mode, exp[g])
        compare(
            case, ctx, "contribution of %s" % g, con[g], e, y, lambda m, g=g: gen.unlink(mode, m.contributions(P)[g])
        )
    if mode == "classifier":
        pr = est.predict_proba(P)
        sure = np.abs(pr[:, 1] - 0.5) > 1e-9
        require(
            np.array_equal(est.predict(P)[sure], (pr[:, 1] > 0.5).astype(float)[sure]),
            "labels do not follow the probabilities",
        )
        require(np.all(np.abs(pr.sum(axis=1) - 1) < 1e-12), "class probabilities do not sum to one")
    ctx.label("mode:" + mode)
    ctx.label("iterations:%d" % model.n_iter)
    if case["w"] is not None:
        ctx.label("weights")
    if case["prior"] is not None:
        ctx.label("prior")
    if any(len(g) > 1 for g in case["groups"]):
        ctx.label("multidim")
    if not case["params"]["aggregate"]:
        ctx.label("not aggregated")
    ctx.mark(len(np.unique(model.predict(X))) > 1)
    return est, model


RULE = (
    "a case is a generated training problem; non-trivial = training converged, the problem is well-conditioned and "
    "the reference predictions are not all equal"
)
