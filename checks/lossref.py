"""Comparison of estimators with numerically minimised costs with exact minimisation (C15, C16)."""
import numpy as np

from cbv import gen, ref
from cbv.core import Discard, require
from checks import refcheck
from cyclic_boosting.utils import ConvergenceError

# a general numerical minimiser finds bin parameters to about four digits
TOL = 2e-3

RULE = (
    "a case is a generated training problem; non-trivial = training converged, every bin has a unique minimum that a "
    "general minimiser reaches, and the predictions are not all equal"
)


def dev(case, a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.array_equal(np.isnan(a), np.isnan(b)):
        return np.inf
    if case["mode"] in gen.ADD:
        y = np.asarray(case["y"])
        return float(np.nanmax(np.abs(a - b)) / (1e-9 + np.std(y) + 1e-3 * np.abs(y).max()))
    if case["mode"] in gen.LOGIT:
        return float(np.nanmax(np.abs(a - b)))
    return gen.rel(a, b, 1e-300)


def nudged(case, k):
    c = dict(case)
    rs = np.random.RandomState(k)
    n = len(case["y"])
    w = case["w"] if case.get("w") is not None else [1.0] * n
    c["w"] = [v * (1 + 1e-7 * e) for v, e in zip(w, rs.uniform(-1, 1, size=n))]
    if case["mode"] != "gclassifier":
        c["y"] = [v * (1 + 1e-7 * e) for v, e in zip(case["y"], rs.uniform(-1, 1, size=n))]
    return c


def reference(case):
    return refcheck.reference(case, 1e-3)


def check(case, ctx):
    mode = case["mode"]
    model = reference(case)
    X, P = gen.frame(case), gen.pred_frame(case)
    est = gen.build(case)
    try:
        est.fit(gen.frame(case), gen.target(case))
    except ConvergenceError:
        require(False, "training diverges where exact minimisation does not")
    con, exp = est.get_feature_contributions(P), model.contributions(P)
    require(set(con) == set(exp), "feature groups %r, expected %r" % (sorted(con), sorted(exp)))
    pairs = [("training rows", lambda e: e.predict(X), lambda m: m.predict(X)), ("new rows", lambda e: e.predict(P), lambda m: m.predict(P))]
    for g in exp:
        pairs.append(
            (
                "contribution of %s" % g,
                lambda e, g=g: e.get_feature_contributions(P)[g],
                lambda m, g=g: gen.unlink(mode, m.contributions(P)[g]),
            )
        )
    for what, of_lib, of_ref in pairs:
        got, want = of_lib(est), of_ref(model)
        d = dev(case, got, want)
        if d <= TOL:
            continue
        # is this the minimiser or the data sitting on an edge?
        for k in range(4):
            c = nudged(case, k)
            if dev(case, of_ref(reference(c)), want) > 0.1 * TOL:
                raise Discard("ill-conditioned")
            other = gen.fit(c)
            if other is None or dev(case, of_lib(other), got) > 0.5 * d:
                raise Discard("minimiser")
        require(
            False, "%s: %r instead of %r (deviation %.3g)" % (what, np.asarray(got)[:6], np.asarray(want)[:6], d)
        )
    ctx.label("mode:" + mode)
    ctx.label("iterations:%d" % model.n_iter)
    ctx.label("cost:%s" % case["params"].get("cost", "level %s" % case["params"].get("quantile")))
    if case["w"] is not None:
        ctx.label("weights")
    if case["prior"] is not None:
        ctx.label("prior")
    if any(len(g) > 1 for g in case["groups"]):
        ctx.label("multidim")
    ctx.label("smoother:" + case["params"]["smoother"])
    ctx.mark(len(np.unique(model.predict(X))) > 1)
