"""Guard against alarms on ill-conditioned problems.

Two trainings that are equal in exact arithmetic differ by rounding, and the cyclic loop can amplify that without
bound (ties in isotonic fits, stop criteria, bistable optimisations).  Before a mismatch is reported, the problem is
trained again with targets and weights moved in the 12th to 16th digit, and with the thresholds of the stop criteria
moved by as little; if that alone moves the result by a noticeable part of
the tolerance, the case does not decide anything.
"""
import numpy as np

from cbv import gen
from cbv.core import Discard, require


def deviation(mode, a, b, y):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or (np.isnan(a) != np.isnan(b)).any():
        return np.inf
    if mode in gen.LOGIT:
        return float(np.nanmax(np.abs(a - b))) if a.size else 0.0
    scale = max(1e-12, float(np.max(np.abs(y)))) if mode in gen.ADD else 1e-300
    return gen.rel(a, b, scale)


def nudged(case, k, size=1e-12):
    c = dict(case)
    rs = np.random.RandomState(k)
    n = len(case["y"])
    if case["mode"] not in ("classifier", "gclassifier", "nbinomc"):
        # each target for itself, all alike (ties stay ties) or not at all
        e = [rs.uniform(-1, 1, size=n), np.full(n, 10 * rs.uniform(-1, 1)), np.zeros(n)][k // 3 % 3]
        c["y"] = [v * (1 + size * f) for v, f in zip(case["y"], e)]
    if case["mode"] != "nbinomc":
        w = case["w"] if case.get("w") is not None else [1.0] * n
        c["w"] = [v * (1 + size * e) for v, e in zip(w, rs.uniform(-1, 1, size=n))]
    else:
        c["extra"] = dict(case["extra"])
        c["extra"]["MU"] = [v * (1 + size * e) for v, e in zip(case["extra"]["MU"], rs.uniform(-1, 1, size=n))]
    if k % 3:
        # a change of zero is neither above nor below a threshold of zero
        shift = 1e-12 if k % 3 == 1 else -1e-12
        p = case["params"]
        c["params"] = dict(p, **{t: p[t] + shift for t in ("min_loss", "min_factor") if p.get(t) is not None})
    c["row_keys"] = gen.row_keys(c)
    return c


def require_same(case, what, got, exp, evaluate, tol=1e-7, tries=None, size=1e-12):
    """``evaluate(case)`` recomputes ``exp`` for a nudged case (None: training diverged)."""
    mode, y = case["mode"], case["y"]
    d = deviation(mode, got, exp, y)
    if d <= tol:
        return
    # numerical minimisation of a loss with kinks may end elsewhere for any rounding, but rarely does
    for k in range(tries or (72 if mode in gen.SLOW else 18)):
        other = evaluate(nudged(case, k, size * [1, 1e-3, 3e-4][(k // 9 + k) % 3]))
        if other is None or deviation(mode, other, exp, y) > tol * 1e-2:
            raise Discard("ill-conditioned")
    require(
        False, "%s: %r instead of %r (deviation %.3g)" % (what, np.asarray(got)[:6], np.asarray(exp)[:6], d)
    )
