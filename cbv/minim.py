"""Exact minimisers of the cost of one bin, and whether a general numerical minimiser finds them.

``model`` is ``prediction = param * p`` (scale) or ``param + p`` (shift).
"""
import math

import numpy as np
from scipy import optimize

COSTS = {}


class Unclear(Exception):
    """The minimum is not unique, or a general minimiser does not reach it reliably."""


def predict(kind, param, p):
    return param * p if kind == "scale" else param + p


def cost_value(cost, kind, param, p, y, w):
    return float(cost(predict(kind, param, p), y, w))


def pinball(kind, p, y, w, q):
    """Exact minimum of the piecewise linear cost."""
    use = w > 0
    p, y, w = p[use], y[use], w[use]
    if kind == "scale":
        use = p > 0
        p, y, w = p[use], y[use], w[use]
        z, v = y / p, w * p
    else:
        z, v = y - p, w
    if len(z) == 0:
        raise Unclear("no weight")
    order = np.argsort(z, kind="stable")
    z, v = z[order], v[order]
    c = np.cumsum(v)
    target = q * c[-1]
    i = int(np.searchsorted(c, target * (1 - 1e-9)))
    if abs(c[i] - target) <= 1e-6 * c[-1] and i + 1 < len(z) and z[i + 1] > z[i]:
        raise Unclear("flat minimum")
    return float(z[i])


def quadratic(kind, p, y, w):
    if kind == "scale":
        d = float(np.sum(w * p * p))
        if not d > 0:
            raise Unclear("no curvature")
        return float(np.sum(w * p * y)) / d
    return float(np.sum(w * (y - p)) / np.sum(w))


def expectile(kind, p, y, w, tau):
    m = quadratic(kind, p, y, w)
    for _ in range(200):
        v = w * np.where(y >= predict(kind, m, p), tau, 1 - tau)
        new = quadratic(kind, p, y, v)
        if abs(new - m) <= 1e-13 * (1 + abs(m)):
            return new
        m = new
    raise Unclear("no convergence")


def logloss(kind, p, y, w):
    """Root of the derivative; the cost is convex in the scale."""
    top = (1 - 1e-9) / float(np.max(p[w > 0]))

    def slope(a):
        return float(np.sum(w * (-y / a + (1 - y) * p / (1 - a * p))))

    lo, hi = 1e-9, top * (1 - 1e-9)
    if not np.any(w * y > 0) or not np.any(w * (1 - y) > 0) or slope(hi) <= 0:
        raise Unclear("minimum at the edge")
    return float(optimize.brentq(slope, lo, hi, xtol=1e-13))


def reachable(cost, kind, exact, start, p, y, w, tol=1e-4):
    """Does a quasi-Newton search from the neutral parameter arrive at the exact minimum?"""
    n = len(y)
    scale = max(abs(exact), abs(start), 1e-3 if kind == "scale" else float(np.std(y)), 1e-12)
    for order in (np.arange(n), np.arange(n)[::-1], np.roll(np.arange(n), n // 2)):
        pp, yy, ww = p[order], y[order], w[order]
        with np.errstate(all="ignore"):
            res = optimize.minimize(lambda a: cost(predict(kind, a, pp), yy, ww), start)
        if not abs(float(res.x[0]) - exact) <= tol * scale:
            raise Unclear("not reached")
    return exact


def solve(name, cost, kind, start, p, y, w, q=None):
    """Parameter that minimises the cost of the rows."""
    if name == "pinball":
        e = pinball(kind, p, y, w, q)
    elif name == "pinball30":
        e = pinball(kind, p, y, w, 0.3)
    elif name == "quadratic":
        e = quadratic(kind, p, y, w)
    elif name == "expectile20":
        e = expectile(kind, p, y, w, 0.2)
    else:
        e = logloss(kind, p, y, w)
    if not math.isfinite(e):
        raise Unclear("no minimum")
    return reachable(cost, kind, e, start, p, y, w)
