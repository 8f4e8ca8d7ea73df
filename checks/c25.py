"""C25: one-dimensional smoothers compute their documented estimate."""
import copy
import warnings

import numpy as np
import scipy.interpolate
from hypothesis import strategies as st
from scipy import stats
from sklearn.linear_model import LassoLarsIC

from cyclic_boosting.smoothing import extrapolate, onedim

from cbv.core import Discard, Sub, Violation, require
from checks import smooth

PROPERTY = "C25"
RULE = (
    "a case is a smoother with settings, bins with values, weights and uncertainties, and positions to evaluate; "
    "non-trivial = at least three bins with different values"
)
KINDS = [
    "values", "prior", "one", "wmean", "wmean_prior", "neighbours", "ortho", "seasonal", "poly", "linear",
    "linear_fallback", "extrapolate", "isotonic", "meta_prior", "spline", "lsq", "lasso",
]


def custom(x, a, b):
    return a + b * np.sin(x)


def build(case):
    k, p = case["kind"], case["par"]
    if k == "values":
        return onedim.BinValuesSmoother()
    if k == "prior":
        pr = np.array(p["prior"][: len(case["y"])]) if p["vector"] else p["prior"][0]
        return onedim.RegularizeToPriorExpectationSmoother(pr, threshold=p["t"])
    if k == "one":
        return onedim.RegularizeToOneSmoother(threshold=p["t"])
    if k == "wmean":
        return onedim.WeightedMeanSmoother()
    if k == "wmean_prior":
        return onedim.WeightedMeanSmoother(prior_prediction=p["prior"][0])
    if k == "neighbours":
        return onedim.WeightedMeanSmootherNeighbors()
    if k == "ortho":
        return onedim.OrthogonalPolynomialSmoother()
    if k == "seasonal":
        if p["custom"]:
            return onedim.SeasonalSmoother(offset_tozero=p["zero"], custom_fit_function=custom, fallback_value=p["fall"])
        return onedim.SeasonalSmoother(offset_tozero=p["zero"], order=p["order"], fallback_value=p["fall"])
    if k == "poly":
        return onedim.PolynomialSmoother(p["deg"])
    if k == "linear":
        return onedim.LinearSmoother()
    if k == "linear_fallback":
        return onedim.LinearSmoother(fallback_when_negative_slope=True)
    if k == "extrapolate":
        return extrapolate.LinearExtrapolator(epsilon=p["eps"])
    if k == "isotonic":
        return onedim.IsotonicRegressor(increasing=p["inc"])
    if k == "meta_prior":
        return onedim.PriorExpectationMetaSmoother(onedim.LinearSmoother(), p["prior"][0], threshold=p["t"])
    if k == "spline":
        return onedim.UnivariateSplineSmoother(k=min(p["deg"], 5), s=p["s"])
    if k == "lsq":
        return onedim.LSQUnivariateSpline(interior_knots=p["knots"], degree=p["deg"])
    if k == "lasso":
        return onedim.SeasonalLassoSmoother(min_days=p["days"])
    raise KeyError(k)


def expected(case, x, w, s, y, at):
    """Expected values at the positions; None where nothing is required."""
    k, p = case["kind"], case["par"]
    if k == "values":
        return smooth.lookup(y, at)
    if k == "prior":
        pr = np.array(p["prior"][: len(y)]) if p["vector"] else p["prior"][0]
        return smooth.lookup(smooth.to_prior(y, s, pr, p["t"]), at)
    if k == "one":
        return smooth.lookup(smooth.to_prior(y, s, 1.0, p["t"]), at)
    if k == "wmean":
        return smooth.lookup(smooth.to_mean(y, s), at)
    if k == "wmean_prior":
        return smooth.lookup(smooth.to_mean(y, s, p["prior"][0]), at)
    if k == "neighbours":
        return smooth.lookup(smooth.to_neighbours(y, s), at)
    if k == "ortho":
        return smooth.orthogonal(x, y, s, at)
    if k == "seasonal":
        t, ta = 2 * np.pi * x / len(x), 2 * np.pi * at / len(x)
        order = p["order"]
        if len(x) < (2 if p["custom"] else 2 * order + 1):
            return np.full(len(at), p["fall"])
        A, B = (np.stack([np.ones(len(v)), np.sin(v)], axis=1) if p["custom"] else smooth.fourier(v, order) for v in (t, ta))
        c = smooth.wls(A, y, 1 / s**2)
        if np.linalg.cond(A / s[:, None]) > 1e6:
            raise Discard("singular")
        if p["zero"]:
            c[0] = 0.0
        return B @ c
    if k == "poly":
        return smooth.polynomial(x, y, 1 / s**4, min(p["deg"], len(x) - 1), at) if p["deg"] < len(x) else None
    if k in ("linear", "linear_fallback"):
        deg = 0 if len(x) == 1 else 1
        v = smooth.polynomial(x, y, 1 / s**4, deg, at)
        if k == "linear_fallback" and deg:
            ends = smooth.polynomial(x, y, 1 / s**4, 1, np.array([0.0, 1.0]))
            slope = ends[1] - ends[0]
            if abs(slope) < 1e-9 * (1 + np.abs(y).max()):
                return None
            if slope < 0:
                v = smooth.polynomial(x, y, 1 / s**4, 0, at)
        return v
    if k == "extrapolate":
        if len(x) == 1:
            return None
        return smooth.polynomial(x, y, 1 / (s**2 + p["eps"]), 1, at)
    if k == "isotonic":
        ww = 1 / np.where(s > 0, s, 1e12) ** 2
        inc = p["inc"]
        if inc == "auto":
            rho = stats.spearmanr(x, y).statistic if len(x) > 1 else np.nan
            if not abs(rho) > 1e-9:
                return None
            inc = rho >= 0
        return np.interp(at, x, smooth.pava(y, ww, inc))
    if k == "meta_prior":
        inner = smooth.polynomial(x, y, 1 / s**4, 0 if len(x) == 1 else 1, x)
        return smooth.lookup(smooth.to_prior(inner, s, p["prior"][0], p["t"]), at)
    if k == "spline":
        if p["s"] == 0:
            return None
        return scipy.interpolate.UnivariateSpline(x, y, w=w, k=p["deg"], s=p["s"])(at)
    if k == "lsq":
        return scipy.interpolate.LSQUnivariateSpline(x, y, np.array(p["knots"], dtype=float), w, k=p["deg"])(at)
    if k == "lasso":
        has = w > 0
        if has.sum() < p["days"]:
            return np.zeros(len(at))

        def basis(v):
            t = 2 * np.pi * v / x[-1]
            return np.c_[np.sin(t), np.cos(t), -np.sin(t), -np.cos(t)]

        est = LassoLarsIC(positive=True, fit_intercept=False).fit(basis(x[has]), y[has])
        return est.predict(basis(at))


# the regularisation to a prior has infinite slope at its threshold: square root of the rounding error
TIGHT = {"values": 0.0, "seasonal": 1e-5, "ortho": 1e-6, "prior": 1e-6, "one": 1e-6, "meta_prior": 1e-5}


def check(case, ctx):
    kind, p = case["kind"], case["par"]
    y = np.array(case["y"], dtype=float)
    n = len(y)
    s = np.array(case["s"][:n], dtype=float)
    w = np.array(case["w"][:n], dtype=float)
    x = np.arange(n, dtype=float)
    if kind in ("poly", "linear", "extrapolate", "isotonic", "spline", "lsq", "linear_fallback") and case["gaps"]:
        x = np.cumsum(1 + (np.array(case["steps"][:n]) % 3)).astype(float)
    if kind == "ortho" and case["gaps"]:
        # the bins need not start at zero
        x = x + case["steps"][0] - 2.0
    if kind == "poly" and p["deg"] >= n:
        raise Discard("degree too high")
    if kind in ("spline", "lsq"):
        w = w + 0.5
        if n <= p["deg"] + 2:
            raise Discard("too few points")
    if kind == "lasso":
        if n < 3:
            raise Discard("too few bins")
        if (w > 0).sum() >= p["days"] and (w > 0).sum() < 6:
            raise Discard("too few points for the information criterion")
    if kind == "lsq":
        p = dict(p, knots=sorted({float(x[1 + v % (n - 2)]) - 0.5 for v in p["kn"]})[: max(1, n - p["deg"] - 2)])
        case = dict(case, par=p)
    at = np.array([np.nan if v is None else v for v in case["at"]], dtype=float)
    if kind in ("ortho", "seasonal", "poly", "linear", "extrapolate", "isotonic", "spline", "lsq", "lasso", "linear_fallback"):
        at = at[np.isfinite(at)]
    at = np.concatenate([x, at])
    X = np.c_[x, w, s]
    if not case["wide"]:
        P = np.c_[at].copy()
    else:
        P = np.c_[at, np.ones(len(at)), np.ones(len(at))]
    if case["order"] == "F":
        X, P = np.asfortranarray(X), np.asfortranarray(P)
    X0, P0, y0 = X.copy(), P.copy(), y.copy()
    yy = y.astype(np.int64) if case["ints"] and np.all(y == np.round(y)) and kind not in ("values",) else y
    est = build(case)
    try:
        est.predict(P)
    except Exception:
        pass
    else:
        if kind not in ("lasso",):
            raise Violation("%s predicts before it is fitted" % kind)
    if case["twice"]:
        # an earlier fit leaves no trace, also if it had another number of bins
        more = 0 if case["order"] == "F" or kind == "lasso" or kind == "prior" and p["vector"] else 3
        if more and kind in ("seasonal", "values", "wmean", "isotonic") and case["gaps"]:
            # or fewer bins, possibly too few for a fit
            more = -(n // 2) if n < 6 else 2 - n
        x1 = np.concatenate([x, x[-1] + 1 + np.arange(max(more, 0))])[: n + more]
        est.fit(np.c_[x1, np.resize(w, n + more), np.resize(s, n + more)], np.resize(yy[::-1] * 2 + 1, n + more))
    try:
        exp = expected(case, x, w, s, y, at)
    except ValueError as e:
        raise Discard("oracle: %s" % e)
    est.fit(X, yy)
    got = np.asarray(est.predict(P), dtype=float)
    require(got.shape == (len(at),), "shape %r" % (got.shape,))
    require(np.array_equal(X, X0) and np.array_equal(P, P0, equal_nan=True) and np.array_equal(y, y0), "%s changes its input" % kind)
    again = np.asarray(est.predict(P), dtype=float)
    require(np.array_equal(got, again, equal_nan=True), "%s: second prediction differs" % kind)
    scale = 1 + np.abs(y).max() + s.max()
    if exp is not None:
        tol = TIGHT.get(kind, 1e-8) * scale
        big = np.nanmax(np.abs(exp)) if np.isfinite(exp).any() else 1.0
        if kind in ("wmean", "neighbours") and np.allclose(y, y[0], rtol=2e-5, atol=2e-8):
            # nearly constant values may be kept as they are
            tol += np.ptp(y)
        if kind == "wmean_prior" and np.allclose(y, p["prior"][0], rtol=2e-5, atol=2e-8):
            tol += np.abs(y - p["prior"][0]).max()
        if kind in ("poly", "spline", "lsq", "ortho", "seasonal"):
            tol = tol * max(1.0, big / scale)
            if kind == "poly":
                tol = 1e-6 * max(scale, big)
        bad = (np.isnan(got) != np.isnan(exp)) | (np.abs(np.where(np.isnan(got), 0, got) - np.where(np.isnan(exp), 0, exp)) > tol)
        require(
            not bad.any(),
            "%s at %r: %r instead of %r (bins %r, uncertainties %r)" % (kind, at[bad][:4], got[bad][:4], exp[bad][:4], y, s),
        )
        ctx.label(kind)
    else:
        ctx.label(kind + "_open")
    if kind == "spline" and p["s"] == 0:
        require(np.allclose(got[:n], y, atol=1e-6 * scale), "interpolating spline %r instead of %r" % (got[:n], y))
    if kind == "isotonic":
        d = np.diff(got[:n])
        up, down = np.all(d >= -1e-12 * scale), np.all(d <= 1e-12 * scale)
        require(
            {"auto": up or down, True: up, False: down}[p["inc"]], "isotonic (%r) result %r" % (p["inc"], got[:n])
        )
        lo, hi = got[:n].min(), got[:n].max()
        require(np.all((got >= lo - 1e-12) & (got <= hi + 1e-12)), "isotonic result %r outside the fitted range" % (got,))
    if kind == "seasonal" and exp is not None:
        shifted = np.asarray(est.predict(np.c_[at + n]), dtype=float)
        require(np.allclose(shifted, got, atol=1e-7 * (1 + np.abs(got).max())), "seasonal: not periodic with the number of bins")
    if kind == "lasso":
        shifted = np.asarray(est.predict(np.c_[at + x[-1]]), dtype=float)
        require(np.allclose(shifted, got, atol=1e-7 * (1 + np.abs(got).max())), "lasso: not periodic")
    c = copy.deepcopy(est)
    require(np.array_equal(np.asarray(c.predict(P), dtype=float), got, equal_nan=True), "%s: copy predicts differently" % kind)
    ctx.mark(n >= 3 and len(np.unique(y)) > 1)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    n = draw(st.integers(1, 14))
    if kind == "ortho" and draw(st.booleans()):
        n = draw(st.integers(14, 40))
    if kind == "lasso":
        n = draw(st.integers(3, 24))
    val = draw(st.sampled_from([
        st.integers(-5, 8).map(float), st.floats(-3, 3).map(lambda v: round(v, 6)), st.floats(-300, 300).map(lambda v: round(v, 4)),
    ]))
    unc = draw(st.sampled_from([st.just(1.0), st.sampled_from([0.1, 0.5, 1.0, 2.0, 10.0]), st.floats(0.05, 5).map(lambda v: round(v, 4))]))
    y = draw(st.lists(val, min_size=n, max_size=n))
    if draw(st.integers(0, 5)) == 0:
        y = [y[0]] * n
    return dict(
        kind=kind, y=y, s=draw(st.lists(unc, min_size=n, max_size=n)),
        w=draw(st.lists(st.sampled_from([0.0, 1.0, 2.0, 7.5]), min_size=n, max_size=n)),
        steps=draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)), gaps=draw(st.booleans()),
        at=draw(st.lists(st.one_of(st.integers(-2, n + 3).map(float), st.floats(-3, n + 5), st.sampled_from([None, float("inf")])), max_size=8)),
        wide=draw(st.booleans()), order=draw(st.sampled_from(["C", "F"])), ints=draw(st.booleans()), twice=draw(st.booleans()),
        par=dict(
            prior=[draw(st.sampled_from([0.0, 1.0, -2.5, 4.0])) for _ in range(n)], vector=draw(st.booleans()),
            t=draw(st.sampled_from([2.5, 1.0, 0.0, 0.3])), zero=draw(st.booleans()), order=draw(st.integers(1, 3)),
            custom=draw(st.integers(0, 3)) == 0, fall=draw(st.sampled_from([0.0, -1.5])), deg=draw(st.integers(1, 4)),
            eps=draw(st.sampled_from([1e-4, 0.5])), inc=draw(st.sampled_from(["auto", True, False])),
            s=draw(st.sampled_from([None, 0, 1.0, 10.0])), kn=draw(st.lists(st.integers(0, 30), min_size=1, max_size=2)),
            days=draw(st.sampled_from([3, 6, 10, 300])),
        ),
    )


CURVES = {
    "wave": lambda x, a, b: a * np.sin(b * x),
    "peak": lambda x, a, b, c: a * np.exp(b * np.sin(x) + c),
    "decay": lambda x, a, b, c: a * np.exp(-b * x) + c * np.exp(-1.0001 * b * x),
    "growth": lambda x, a, b: np.exp(a * a * x - b),
}


def check_curve(case, ctx):
    """A custom curve is fitted, or, if that does not converge, replaced by the fallback value."""
    f = CURVES[case["curve"]]
    y = np.array(case["y"], dtype=float)
    n = len(y)
    s = np.array(case["s"][:n], dtype=float)
    x = np.arange(n, dtype=float)
    est = onedim.SeasonalSmoother(offset_tozero=False, custom_fit_function=f, fallback_value=case["fall"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        est.fit(np.c_[x, np.ones(n), s], y)
        got = np.asarray(est.predict(np.c_[x]), dtype=float)
        start = f(2 * np.pi * x / n, *np.ones(3 if case["curve"] in ("peak", "decay") else 2))
    require(got.shape == (n,), "shape %r" % (got.shape,))
    if np.all(got == case["fall"]):
        ctx.label("fallback")
        ctx.mark(True)
        return
    sse = lambda v: np.sum(((v - y) / s) ** 2)
    require(sse(got) <= sse(start) * (1 + 1e-9) + 1e-9, "custom curve %s fits worse than its start: %r" % (case["curve"], got))
    ctx.label("fitted")
    ctx.mark(n >= 3)


@st.composite
def curve_cases(draw):
    n = draw(st.integers(1, 12))
    size = draw(st.sampled_from([0.1, 1.0, 10.0]))
    return dict(
        curve=draw(st.sampled_from(sorted(CURVES))), fall=draw(st.sampled_from([0.0, -1.5])),
        y=draw(st.lists(st.floats(-1, 1).map(lambda v: round(v, 3) * size), min_size=n, max_size=n)),
        s=draw(st.lists(st.sampled_from([0.1, 0.5, 1.0, 2.0]), min_size=n, max_size=n)),
    )


SUBS = [
    Sub("smoothers", cases, check, 8000, shrink_rows=False),
    Sub("curves", curve_cases, check_curve, 600, shrink_rows=False),
]
