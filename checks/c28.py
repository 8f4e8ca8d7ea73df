"""C28: quantile-parameterised distributions honour their triplets."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from cyclic_boosting import quantile_matching as qm

from cbv.core import Sub, Violation, require

PROPERTY = "C28"
RULE = (
    "a case is a family of quantile triplets with bounds, tail probability and base distribution, evaluated at "
    "generated probabilities and values, or a base distribution; non-trivial = at least three probabilities "
    "besides the three given ones and a triplet with low < median < high"
)


class Base:
    """Independent base distribution with median 0."""

    def __init__(self, version, shape=0.0):
        self.version = version
        self.shape = shape

    def ppf(self, p):
        p = np.asarray(p, dtype=float)
        if self.version == "normal":
            return stats.norm.ppf(p)
        v = np.log(p) - np.log1p(-p)
        if self.version == "sinhlogistic":
            v = v / 4
            s = self.shape
            if s > 0:
                v = np.arcsinh(s * v) / s
            elif s < 0:
                v = np.sinh(s * v) / s
        return v


def internal(kind, base, x, l, u):
    """Triplet space in which the Johnson transform acts."""
    x = np.asarray(x, dtype=float)
    if kind == "B":
        f = (x - l) / (u - l)
        return stats.norm.ppf(f) if base.version == "normal" else stats.logistic.ppf(f)
    if kind in ("S", "ES"):
        return np.log(x - l)
    if kind == "EB":
        return np.log((x - l) / (u - x))
    return x


def physical(kind, base, z, l, u):
    with np.errstate(over="ignore"):
        if kind == "B":
            return l + (u - l) * (stats.norm.cdf(z) if base.version == "normal" else stats.logistic.cdf(z))
        if kind in ("S", "ES"):
            return l + np.exp(z)
        if kind == "EB":
            return l + (u - l) / (1 + np.exp(-z))
        return z


def johnson(kind, L, B, H, b):
    """Quantiles in the internal space for base quantiles b scaled to 1 at the upper level."""
    with np.errstate(over="ignore"):
        lo, hi = B - L, H - B
        r = (H - L) / (2 * min(lo, hi))
        sym = abs(lo - hi) <= 1e-9 * (H - L)
        if sym:
            return B + (H - L) / 2 * b
        n = 1 if hi > lo else -1
        xi = L if n == 1 else H
        if kind == "S":
            d = np.sinh(np.arccosh(r))
            k = min(lo, hi) / d
            return xi + k * np.sinh(np.arcsinh(d * b) + np.arcsinh(n * d))
        d = np.arccosh(r)
        k = (H - L) / np.sinh(2 * d)
        return xi + k * np.sinh(d * (b + n))


def build(case, i=None):
    low, med, high = (np.array(case[k], dtype=float) for k in ("low", "med", "high"))
    if i is not None:
        low, med, high = float(low[i]), float(med[i]), float(high[i])
    kind, a, l, u = case["kind"], case["alpha"], case["l"], case["u"]
    if kind == "S":
        return qm.J_QPD_S(a, low, med, high, l, version=case["version"])
    if kind == "B":
        return qm.J_QPD_B(a, low, med, high, l, u, version=case["version"])
    kw = dict(version=case["version"], shape=case["shape"])
    if kind == "ES":
        return qm.J_QPD_extended_S(a, low, med, high, l, **kw)
    if kind == "EB":
        return qm.J_QPD_extended_B(a, low, med, high, l, u, **kw)
    return qm.J_QPD_extended_U(a, low, med, high, **kw)


def close_z(kind, base, got, want_z, l, u, L, H, tol=2e-7):
    """The physical value got corresponds to the internal value want_z."""
    w = tol * (H - L) + 1e-9 * abs(want_z) + 1e-12
    a = physical(kind, base, want_z - w, l, u)
    b = physical(kind, base, want_z + w, l, u)
    eps = 1e-12 * (abs(l) + (abs(u) if kind in ("B", "EB") else 0) + 1e-300) + 1e-13 * abs(got)
    return a - eps <= got <= b + eps


def check_triplet(case, ctx):
    kind, a, l, u = case["kind"], case["alpha"], case["l"], case["u"]
    base = Base(case["version"], case["shape"])
    k = len(case["low"])
    p = np.unique(np.concatenate([[a, 0.5, 1 - a], np.array(case["p"], dtype=float)]))
    width = float(base.ppf(1 - a))
    b = base.ppf(p) / width
    with np.errstate(all="ignore"):
        if kind in ("S", "B"):
            d = build(case)
            outer = np.asarray(d.ppf(p), dtype=float)
            require(outer.shape == tuple(s for s in (len(p), k) if s != 1), "quantiles have shape %r" % (outer.shape,))
            outer = outer.reshape(len(p), k)
        else:
            outer = np.stack([np.asarray(build(case, i).ppf(p), dtype=float) for i in range(k)], axis=1)
        for i in range(k):
            low, med, high = case["low"][i], case["med"][i], case["high"][i]
            L, B, H = (float(internal(kind, base, v, l, u)) for v in (low, med, high))
            di = build(case, i)
            q = np.asarray(di.ppf(p), dtype=float)
            require(q.shape == p.shape, "quantiles of a single triplet have shape %r" % (q.shape,))
            require(
                np.allclose(q, outer[:, i], rtol=1e-9, atol=1e-300, equal_nan=True),
                "triplet %d alone and in an array: %r and %r" % (i, q, outer[:, i]),
            )
            what = "%s %r (bounds %r, %r; alpha %r): " % (kind, (low, med, high), l, u, a)
            for pr, zz, v in ((a, L, low), (0.5, B, med), (1 - a, H, high)):
                got = float(q[np.flatnonzero(p == pr)[0]])
                require(
                    close_z(kind, base, got, zz, l, u, L, H),
                    what + "quantile at %r is %r instead of %r" % (pr, got, v),
                )
                sc = di.ppf(pr)
                require(np.ndim(sc) == 0 and np.isclose(float(sc), got, rtol=1e-9), what + "scalar %r" % (sc,))
                c = float(di.cdf(v))
                require(abs(c - pr) <= 1e-6, what + "cumulative probability of %r is %r instead of %r" % (v, c, pr))
            require(not np.isnan(q).any(), what + "quantiles %r" % (q,))
            require(np.all(q[1:] >= q[:-1] - 1e-12 * np.minimum(np.abs(q[:-1]), 1e300)), what + "quantiles decrease: %r at %r" % (q, p))
            if kind != "EU":
                require(np.all(q >= l), what + "quantile %r below the lower bound" % (q.min(),))
            if kind in ("B", "EB"):
                require(np.all(q <= u), what + "quantile %r above the upper bound" % (q.max(),))
            for j, pr in enumerate(p):
                want = float(johnson(kind, L, B, H, b[j]))
                if not np.isfinite(want) or abs(want) > 600:
                    continue
                require(
                    close_z(kind, base, float(q[j]), want, l, u, L, H, tol=1e-6 * max(1, abs(b[j]))
                            * max(1.0, abs(want - B) / (H - L))),
                    what + "quantile at %r is %r instead of %r" % (pr, q[j], physical(kind, base, want, l, u)),
                )
            # the distribution function inverts the quantile function
            ok = np.isfinite(q) & (np.abs(q) < 1e200)
            x = q[ok]
            e = 1e-9 * (np.abs(x - (l if kind != "EU" else med))) + 1e-14 * (np.abs(x) + abs(l) + abs(u))
            lo_x, hi_x = x - e, x + e
            if kind != "EU":
                lo_x = np.maximum(lo_x, l)
            if kind in ("B", "EB"):
                hi_x = np.minimum(hi_x, u)
            c_lo, c_hi = (np.asarray(di.cdf(v), dtype=float).reshape(-1) for v in (lo_x, hi_x))
            # the extended families move the exact bounds by 1e-12 before the transformation
            skip = np.zeros(len(x), dtype=bool)
            if kind in ("ES", "EB"):
                skip |= (x - l) < 1e-9 * max(1.0, abs(l), (u - l) if kind == "EB" else 1.0)
            if kind == "EB":
                skip |= (u - x) < 1e-9 * max(1.0, u - l)
            bad = ~skip & ~((c_lo <= p[ok] + 1e-7) & (c_hi >= p[ok] - 1e-7))
            require(
                not bad.any(),
                what + "cumulative probability around the quantiles %r of %r is %r to %r"
                % (x[bad], p[ok][bad], c_lo[bad], c_hi[bad]),
            )
            cc = np.asarray(di.cdf(x), dtype=float).reshape(-1)
            require(np.all((cc >= 0) & (cc <= 1)), what + "cumulative probabilities %r" % (cc,))
            require(np.all(np.diff(cc[~skip]) >= -1e-12), what + "cumulative probabilities decrease: %r" % (cc,))
            if len(x):
                s = di.cdf(float(x[0]))
                require(np.ndim(s) == 0 and abs(float(s) - cc[0]) <= 1e-9, what + "scalar cdf %r, array %r" % (s, cc[0]))
        if kind in ("S", "B") and k > 1:
            # element by element evaluation: one probability or value per triplet
            pi = np.array((case["p"] * (k // len(case["p"]) + 1))[:k], dtype=float)
            inner = np.asarray(build(case).ppf(pi, inner=True), dtype=float)
            each = np.array([float(build(case, i).ppf(float(pi[i]))) for i in range(k)])
            require(
                inner.shape == (k,) and np.allclose(inner, each, rtol=1e-9, atol=1e-300),
                "%s: elementwise quantiles %r instead of %r" % (kind, inner, each),
            )
            fin = np.isfinite(each)
            xs = np.where(fin, each, case["med"])
            inner = np.asarray(build(case).cdf(xs, inner=True), dtype=float)
            each = np.array([float(build(case, i).cdf(float(xs[i]))) for i in range(k)])
            require(
                inner.shape == (k,) and np.allclose(inner, each, rtol=1e-9, atol=1e-9),
                "%s: elementwise cumulative probabilities %r instead of %r" % (kind, inner, each),
            )
            full = np.asarray(build(case).cdf(xs), dtype=float)
            require(
                full.shape == (k, k) and np.allclose(np.diag(full), each, rtol=1e-9, atol=1e-9),
                "%s: cumulative probabilities of all values and triplets disagree with single ones" % kind,
            )
    ctx.label("%s_%s" % (kind, case["version"]))
    ctx.label("symmetric" if case["sym"] else "skewed")
    ctx.mark(len(case["p"]) >= 3)


def check_base(case, ctx):
    s, a = case["shape"], case["alpha"]
    d = qm.SinhLogistic(shape=s)
    ref = Base("sinhlogistic", s)
    p = np.array(case["p"], dtype=float)
    x = np.asarray(d.ppf(p), dtype=float)
    exp = ref.ppf(p)
    require(np.allclose(x, exp, rtol=1e-9, atol=1e-12), "quantiles %r instead of %r (shape %r)" % (x, exp, s))
    require(np.allclose(d.cdf(x), p, rtol=0, atol=1e-9), "cdf of the quantiles is %r, not %r (shape %r)" % (d.cdf(x), p, s))
    require(np.allclose(d.ppf(1 - p), -x, rtol=1e-6, atol=1e-9), "shape %r: not symmetric" % s)
    bd = qm.BaseDist(d, a)
    require(abs(float(bd.ppf(1 - a)) - 1) <= 1e-12, "scaled quantile at %r is %r" % (1 - a, bd.ppf(1 - a)))
    xb = np.asarray(bd.ppf(p), dtype=float)
    require(np.allclose(bd.cdf(xb), p, rtol=0, atol=1e-9), "scaled cdf %r instead of %r" % (bd.cdf(xb), p))
    for name, dist, pts in (("base", d, x), ("scaled", bd, xb)):
        dens = np.asarray(dist.pdf(pts), dtype=float)
        require(np.all(dens >= 0), "%s density %r (shape %r)" % (name, dens, s))
        w = abs(float(dist.ppf(0.6)))
        h = 1e-4 * w
        num = (np.asarray(dist.cdf(pts + h)) - np.asarray(dist.cdf(pts - h))) / (2 * h)
        peak = float(dist.pdf(np.zeros(1))[0])
        # second-order differences: the error is bounded by the curvature of the density
        require(
            np.all(np.abs(dens - num) <= 1e-3 * np.abs(num) + 1e-5 * peak),
            "%s density %r, slope of the distribution function %r (shape %r)" % (name, dens, num, s),
        )
    ctx.label("shape_%+d" % np.sign(s))
    ctx.mark(len(p) >= 3)


def check_reject(case, ctx):
    kind = case["kind"]
    c = dict(case)
    if case["bad"] == "version":
        c["version"] = "cauchy"
    else:
        low, med, high = case["low"], case["med"], case["high"]
        n = len(low)
        i = case["at"] % n
        low, med, high = list(low), list(med), list(high)
        if case["bad"] == "low":
            low[i], med[i] = med[i], low[i]
        else:
            med[i], high[i] = high[i], med[i]
        c.update(low=low, med=med, high=high)
        if kind not in ("S", "B"):
            for k in ("low", "med", "high"):
                c[k] = [c[k][i]]
    try:
        with np.errstate(all="ignore"):
            build(c, None if kind in ("S", "B") else 0)
    except Exception:
        ctx.label("%s_%s" % (kind, case["bad"]))
        ctx.mark()
        return
    raise Violation("%s accepts an invalid %s" % (kind, case["bad"]))


KINDS = ["S", "B", "ES", "EB", "EU"]


@st.composite
def triplets(draw, n=3):
    kind = draw(st.sampled_from(KINDS))
    version = draw(st.sampled_from(["normal", "logistic"] if kind in ("S", "B") else ["normal", "logistic", "sinhlogistic"]))
    shape = draw(st.sampled_from([0.0, 0.5, -0.5, 1.0, -1.0, 2.0, 0.01, -0.01])) if version == "sinhlogistic" else 0.0
    a = draw(st.sampled_from([0.1, 0.25, 0.05, 0.2, 0.4, 0.01, 0.3]))
    sym = draw(st.booleans())
    l = draw(st.sampled_from([0.0, 0.0, 1.0, -3.0, 100.0, -1e4]))
    span = draw(st.sampled_from([1.0, 15.0, 100.0, 1e4]))
    u = l + span
    low, med, high = [], [], []
    for _ in range(draw(st.integers(1, n))):
        near = draw(st.sampled_from([0.0, 0.0, 0.0, 1e-6, 1e-12]))
        r = 1.0 + near if sym else draw(st.one_of(st.floats(1.0001, 4), st.sampled_from([30.0, 100.0, 1.5])))
        d = draw(st.floats(0.01, 2))
        up = draw(st.booleans())
        da, db = (d, d * r) if up else (d * r, d)
        scale = 1.0
        if da + db > 6:
            scale = 6 / (da + db)
        da, db = da * scale, db * scale
        c = draw(st.floats(-2, 2))
        if kind in ("B", "EB"):
            f = lambda z: l + (u - l) / (1 + np.exp(-z))  # noqa: E731
        elif kind in ("S", "ES"):
            f = lambda z: l + span * np.exp(z)  # noqa: E731
        else:
            f = lambda z: l + span * z  # noqa: E731
        t = [float(f(c - da)), float(f(c)), float(f(c + db))]
        if sym and near == 0 and kind == "EU":
            t[1] = (t[0] + t[2]) / 2
        if sym and kind in ("S", "ES") and draw(st.booleans()):
            # exactly symmetric in the logarithm
            g = 2.0 ** draw(st.integers(-3, 3))
            h = 2.0 ** draw(st.integers(1, 3))
            t = [l + g / h, l + g, l + g * h]
        if sym and kind in ("B", "EB") and draw(st.booleans()):
            w = draw(st.sampled_from([0.125, 0.25, 0.375]))
            t = [l + span * (0.5 - w), l + span * 0.5, l + span * (0.5 + w)]
        low.append(t[0])
        med.append(t[1])
        high.append(t[2])
    return dict(
        kind=kind, version=version, shape=shape, alpha=a, sym=sym, l=l, u=u, low=low, med=med, high=high,
        p=draw(st.lists(st.one_of(st.floats(0.001, 0.999), st.sampled_from([1e-6, 1e-4, 0.9999])), min_size=1, max_size=8)),
    )


@st.composite
def bases(draw):
    return dict(
        shape=draw(st.one_of(st.floats(-3, 3).map(lambda v: round(v, 6)), st.sampled_from([0.0, 1e-3, -1e-3, 5.0, -5.0]))),
        alpha=draw(st.floats(0.01, 0.45)),
        p=draw(st.lists(st.floats(0.001, 0.999), min_size=1, max_size=10)),
    )


@st.composite
def rejects(draw):
    c = draw(triplets())
    c["bad"] = draw(st.sampled_from(["version", "low", "high"]))
    c["at"] = draw(st.integers(0, 9))
    return c


SUBS = [
    Sub("triplet", triplets, check_triplet, 4000),
    Sub("base", bases, check_base, 2000),
    Sub("reject", rejects, check_reject, 600),
]
