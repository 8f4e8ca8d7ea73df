"""C30: fitting a distribution to quantiles recovers it."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from cyclic_boosting import quantile_matching as qm

from cbv.core import Discard, Sub, Violation, require

PROPERTY = "C30"
RULE = (
    "a case is a distribution with exact quantiles at generated levels (or a sample for the tail shape); "
    "non-trivial = at least four levels"
)
P = np.array([0.02, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.98])


def modes_agree(fit, levels, values, discrete=False):
    ppf, dist, cdf = (fit(levels.copy(), values.copy(), mode=m) for m in ("ppf", "dist", "cdf"))
    default = fit(levels.copy(), values.copy())
    q = np.asarray(ppf(P), dtype=float)
    require(np.array_equal(q, np.asarray(dist.ppf(P), dtype=float)), "modes ppf and dist differ: %r %r" % (q, dist.ppf(P)))
    require(np.array_equal(q, np.asarray(default(P), dtype=float)), "default mode is not ppf")
    c = np.asarray(cdf(q), dtype=float)
    require(np.array_equal(c, np.asarray(dist.cdf(q), dtype=float)), "modes cdf and dist differ: %r" % (c,))
    require(np.all(np.diff(q) >= 0) and np.all(np.diff(c) >= -1e-12), "not monotone: %r %r" % (q, c))
    if discrete:
        require(np.all(c >= P - 1e-9), "cdf %r of the quantiles of %r" % (c, P))
    else:
        require(np.allclose(c, P, atol=1e-9), "cdf %r of the quantiles of %r" % (c, P))
    try:
        fit(levels, values, mode="pdf")
    except Exception:
        pass
    else:
        raise Violation("unknown mode accepted")
    return q, c, dist


def check_gaussian(case, ctx):
    d = stats.norm(case["mu"], case["sigma"])
    p = np.array(case["p"])
    v = d.ppf(p)
    l0, v0 = p.copy(), v.copy()
    q, c, dist = modes_agree(qm.quantile_fit_gaussian, p, v)
    require(np.array_equal(p, l0) and np.array_equal(v, v0), "input changed")
    tol = 1e-4 * case["sigma"]
    what = "normal(%r, %r): " % (case["mu"], case["sigma"])
    require(np.all(np.abs(q - d.ppf(P)) <= 4 * tol), what + "quantiles %r instead of %r" % (q, d.ppf(P)))
    require(abs(dist.mean() - case["mu"]) <= tol and abs(dist.std() - case["sigma"]) <= tol,
            what + "mean %r, deviation %r" % (dist.mean(), dist.std()))
    ctx.label("gaussian")
    ctx.mark(len(p) >= 4)


def check_gamma(case, ctx):
    d = stats.gamma(case["a"], scale=case["scale"])
    p = np.array(case["p"])
    v = d.ppf(p)
    q, c, dist = modes_agree(qm.quantile_fit_gamma, p, v)
    what = "gamma(%r, scale %r): " % (case["a"], case["scale"])
    ref = d.ppf(P)
    require(np.all(np.abs(q - ref) <= 1e-3 * (ref + d.std())), what + "quantiles %r instead of %r" % (q, ref))
    require(abs(dist.mean() / d.mean() - 1) <= 1e-3 and abs(dist.std() / d.std() - 1) <= 1e-3,
            what + "mean %r (%r), deviation %r (%r)" % (dist.mean(), d.mean(), dist.std(), d.std()))
    require(np.all(q >= 0), what + "negative quantiles")
    ctx.label("gamma")
    ctx.mark(len(p) >= 4)


def check_nbinom(case, ctx):
    mu = case["mu"]
    var = mu * case["disp"]
    d = stats.nbinom(mu * mu / (var - mu), mu / var)
    v = np.unique(d.ppf(np.array(case["p"])))
    if len(v) < 4:
        raise Discard("fewer than four values")
    p = d.cdf(v)
    if case["ints"]:
        v = v.astype(np.int64)
    q, c, dist = modes_agree(qm.quantile_fit_nbinom, p, v, discrete=True)
    what = "negative binomial (mean %r, variance %r): " % (mu, var)
    require(
        abs(dist.mean() / mu - 1) <= 1e-3 and abs(dist.var() / var - 1) <= 2e-3,
        what + "mean %r, variance %r" % (dist.mean(), dist.var()),
    )
    x = np.unique(d.ppf(P))
    require(np.all(np.abs(dist.cdf(x) - d.cdf(x)) <= 1e-3), what + "cdf %r instead of %r" % (dist.cdf(x), d.cdf(x)))
    ctx.label("nbinom")
    ctx.label("mean_%s" % ("below_3" if mu < 3 else "below_30" if mu < 30 else "from_30"))
    ctx.mark()


def check_spline(case, ctx):
    p = np.array(case["p"])
    v = np.cumsum(case["steps"][: len(p)]) + case["start"]
    f = qm.quantile_fit_spline(p, v)
    got = np.asarray(f(p), dtype=float)
    scale = np.abs(v).max() + 1
    require(np.allclose(got, v, atol=1e-7 * scale), "spline gives %r at the quantiles %r" % (got, v))
    each = np.array([float(f(x)) for x in p])
    require(np.allclose(each, got, atol=1e-9 * scale), "scalar evaluation %r, array %r" % (each, got))
    inner = np.asarray(f(np.linspace(0, 1, 21)), dtype=float)
    require(np.all(np.isfinite(inner)), "spline values %r" % (inner,))
    # a cubic is reproduced exactly
    co = case["cubic"]
    w = np.polyval(co, p)
    g = qm.quantile_fit_spline(p, w)
    x = np.linspace(0, 1, 21)
    gap = float(np.min(np.diff(p)))
    require(
        np.allclose(np.asarray(g(x)), np.polyval(co, x), atol=1e-10 * (1 + np.abs(co).max()) / gap**3),
        "cubic %r: spline gives %r instead of %r" % (co, g(x), np.polyval(co, x)),
    )
    ctx.label("spline")
    ctx.mark()


def check_shape(case, ctx):
    """The fitted tail shape describes the sample at least as well as the plain logistic."""
    y = np.array(case["y"], dtype=float) * case["scale"]
    l, u = 0.0, case["scale"]
    a = case["alpha"]
    t = np.quantile(y, [a, 0.5, 1 - a])
    gap = 1e-3 * case["scale"]
    if t[1] - t[0] < gap or t[2] - t[1] < gap or t[0] < gap or t[2] > u - gap:
        raise Discard("narrow triplet")
    bound = case["bound"]
    with np.errstate(all="ignore"):
        s = qm.fit_sinhlogistic_shape(a, l, u, bound, y.copy())
    require(np.isfinite(s) and np.ndim(s) == 0, "shape %r" % (s,))
    p = np.arange(0.0005, 0.9995, 0.001)
    q = stats.mstats.mquantiles(y, p)

    def dist(shape):
        if bound == "S":
            d = qm.J_QPD_extended_S(a, t[0], t[1], t[2], l, shape=shape)
        elif bound == "B":
            d = qm.J_QPD_extended_B(a, t[0], t[1], t[2], l, u, shape=shape)
        else:
            d = qm.J_QPD_extended_U(a, t[0], t[1], t[2], shape=shape)
        with np.errstate(all="ignore"):
            return float(np.mean(np.abs(q - d.ppf(p))))

    e, e0 = dist(s), dist(0)
    require(e <= e0 * (1 + 1e-6), "%s: shape %r has distance %r, the unmodified one %r" % (bound, s, e, e0))
    for h in (0.05, 0.2):
        near = min(dist(s - h), dist(s + h))
        require(e <= near * (1 + 1e-3) + 1e-12, "%s: distance %r at shape %r, %r close to it" % (bound, e, s, near))
    ctx.label("shape_%s" % bound)
    ctx.mark()


def levels(draw, lo=3, hi=12):
    k = draw(st.integers(lo, hi))
    a, b = draw(st.floats(0.02, 0.3)), draw(st.floats(0.6, 0.98))
    w = [draw(st.floats(0.2, 1)) for _ in range(k - 1)]
    c = np.concatenate([[0], np.cumsum(w)])
    return [float(v) for v in a + (b - a) * c / c[-1]]


def logspace(draw, lo, hi):
    return float(np.exp(draw(st.floats(np.log(lo), np.log(hi)))))


@st.composite
def gaussians(draw):
    s = logspace(draw, 1e-3, 1e3)
    return dict(mu=s * draw(st.floats(-1000, 1000)), sigma=s, p=levels(draw))


@st.composite
def gammas(draw):
    return dict(a=logspace(draw, 0.5, 50), scale=logspace(draw, 0.05, 50), p=levels(draw))


@st.composite
def nbinoms(draw):
    return dict(mu=logspace(draw, 0.5, 1000), disp=logspace(draw, 1.15, 10), p=levels(draw, 5, 15), ints=draw(st.booleans()))


@st.composite
def splines(draw):
    p = levels(draw, 4, 10)
    return dict(
        p=p, start=draw(st.floats(-100, 100)), steps=[draw(st.floats(0.01, 50)) for _ in p],
        cubic=[draw(st.floats(-5, 5)) for _ in range(4)],
    )


@st.composite
def samples(draw):
    y = draw(st.lists(st.floats(0.01, 0.99), min_size=20, max_size=120))
    return dict(
        y=y, alpha=draw(st.sampled_from([0.25, 0.1, 0.2])), bound=draw(st.sampled_from(["S", "B", "U"])),
        scale=draw(st.sampled_from([1.0, 20.0])),
    )


SUBS = [
    Sub("gaussian", gaussians, check_gaussian, 600),
    Sub("gamma", gammas, check_gamma, 300),
    Sub("nbinom", nbinoms, check_nbinom, 300),
    Sub("spline", splines, check_spline, 600),
    Sub("shape", samples, check_shape, 200),
]
