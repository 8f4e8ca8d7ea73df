"""C26: multidimensional smoothers and meta smoothers compute their documented estimate."""
import copy
import itertools
import pickle

import numpy as np
from hypothesis import strategies as st

from cyclic_boosting.smoothing import meta_smoother, multidim, onedim
from cyclic_boosting.smoothing.meta_smoother import RegressionType

from cbv.core import Sub, Violation, require
from checks import smooth

PROPERTY = "C26"
RULE = (
    "a case is a composition of smoothers, a complete grid of bins with values, weights and uncertainties, and positions; "
    "non-trivial = at least four bins with different values and at least one bin without weight or a composed smoother"
)
TYPES = {
    "disc": RegressionType.discontinuous, "inter": RegressionType.interpolating, "extra": RegressionType.extrapolating,
}


def build(spec, d):
    k = spec[0]
    if k == "norm":
        return meta_smoother.NormalizationSmoother(build(spec[1], d))
    if k == "reg":
        return meta_smoother.RegressionTypeSmoother(build(spec[2], d), TYPES[spec[1]])
    if k == "normreg":
        return meta_smoother.NormalizationRegressionTypeSmoother(build(spec[2], d), TYPES[spec[1]])
    if k == "section":
        kw = {} if spec[4] is None else {"nan_representation": spec[4]}
        return meta_smoother.SectionSmoother(spec[1], build(spec[2], d), build(spec[3], d), **kw)
    if k == "group":
        if spec[2] == "cb":
            return multidim.GroupBySmootherCB(build(spec[1], 1), d)
        return multidim.GroupBySmoother(build(spec[1], 1), d)
    if k == "neutral":
        return multidim.Neutralize2DMetaSmoother(build(spec[1], d))
    mod = onedim if d == 1 else multidim
    if k == "meta":
        return mod.PriorExpectationMetaSmoother(build(spec[3], d), spec[1], threshold=spec[2])
    if k == "values":
        return mod.BinValuesSmoother()
    if k == "prior":
        return mod.RegularizeToPriorExpectationSmoother(spec[1], threshold=spec[2])
    if k == "one":
        return mod.RegularizeToOneSmoother(threshold=spec[1])
    if k == "wmean":
        return mod.WeightedMeanSmoother(prior_prediction=spec[1])
    if k == "linear":
        return onedim.LinearSmoother()
    if k == "iso":
        return onedim.IsotonicRegressor(increasing=spec[1])
    raise KeyError(k)


def table(shape, values):
    """Value stored for the bin a position falls into."""

    def f(at):
        if len(shape) == 1:
            return smooth.lookup(values, at[:, 0])
        out = np.full(len(at), np.nan)
        grid = np.reshape(values, shape)
        for i, row in enumerate(at):
            if np.all(np.isfinite(row)) and np.all(row >= 0) and np.all(np.floor(row) < shape):
                out[i] = grid[tuple(int(v) for v in np.floor(row))]
        return out

    return f


def neutral(v, u):
    v = np.array(v, dtype=float)
    for _ in range(4):
        v = v - (np.sum(v * u, axis=1) / np.sum(u, axis=1))[:, None]
        v = v - (np.sum(v * u, axis=0) / np.sum(u, axis=0))[None, :]
        dev = np.abs(np.sum(v * u, axis=1)).sum() + np.abs(np.sum(v * u, axis=0)).sum()
        if abs(dev - 0.01) < 1e-9:
            return None
        if dev <= 0.01:
            break
    return v


class Open(Exception):
    """The documented result is not determined well enough here."""


def ref(spec, shape, coords, w, s, y):
    """Expected prediction function of a fitted smoother."""
    k = spec[0]
    d = coords.shape[1]
    if k == "values":
        return table(shape, y)
    if k == "prior":
        return table(shape, smooth.to_prior(y, s, spec[1], spec[2]))
    if k == "one":
        return table(shape, smooth.to_prior(y, s, 1.0, spec[1]))
    if k == "wmean":
        if spec[1] is None and len(y) > 1 and np.allclose(y, y[0], rtol=2e-5, atol=2e-8):
            if np.ptp(y) > 0:
                raise Open
            return table(shape, y)
        if spec[1] is not None and np.allclose(y, spec[1], rtol=2e-5, atol=2e-8) and np.any(y != spec[1]):
            raise Open
        return table(shape, smooth.to_mean(y, s, spec[1]))
    if k == "linear":
        return lambda at: smooth.polynomial(coords[:, 0], y, 1 / s**4, 0 if len(y) == 1 else 1, at[:, 0])
    if k == "iso":
        fit = smooth.pava(y, 1 / s**2, spec[1])
        return lambda at: np.interp(at[:, 0], coords[:, 0], fit)
    if k == "meta":
        inner = ref(spec[3], shape, coords, w, s, y)
        return table(shape, smooth.to_prior(inner(coords), s, spec[1], spec[2]))
    if k == "neutral":
        v = neutral(np.reshape(y, shape), np.reshape(s, shape))
        if v is None:
            raise Open
        inner = ref(spec[1], shape, coords, w, s, v.reshape(-1))
        return table(shape, inner(coords))
    if k == "norm":
        m = np.sum(w * y) / np.sum(w) if np.sum(w) > 0 else 0.0
        inner = ref(spec[1], shape, coords, w, s, y - m)
        return lambda at: inner(at) + m
    if k in ("reg", "normreg"):
        m = np.sum(w * y) / np.sum(w) if k == "normreg" and np.sum(w) > 0 else 0.0
        inner = ref(spec[2], shape, coords, w, s, y - m)
        grid = np.reshape(w, shape)

        def f(at):
            out = inner(at) + m
            for i, row in enumerate(at):
                if spec[1] == "disc":
                    r = np.round(row)
                    seen = np.all(np.isfinite(row)) and np.all(row >= 0) and np.all(r < shape)
                    if not (seen and grid[tuple(int(v) for v in r)] > 0):
                        out[i] = np.nan
                elif spec[1] == "inter" and (np.any(row < 0) or np.any(row > np.array(shape) - 0.5)):
                    out[i] = np.nan
            return out

        return f
    if k == "section":
        low = coords[:, 0] <= spec[1] + 0.001
        parts = {}
        for side, sel, sub in ((True, low, spec[2]), (False, ~low, spec[3])):
            if sel.any():
                parts[side] = ref(sub, (int(sel.sum()),), coords[sel], w[sel], s[sel], y[sel])

        def f(at):
            out = np.full(len(at), np.nan if spec[4] is None else spec[4])
            for side, sel in ((True, at[:, 0] <= spec[1] + 0.001), (False, ~(at[:, 0] <= spec[1] + 0.001))):
                if sel.any() and side in parts:
                    out[sel] = parts[side](at[sel])
            return out

        return f
    if k == "group":
        parts = {}
        for key in itertools.product(*[range(n) for n in shape[:-1]]):
            sel = np.all(coords[:, : d - 1] == np.array(key), axis=1)
            if spec[2] == "cb" and not w[sel].sum() > 0:
                continue
            parts[tuple(float(v) for v in key)] = ref(spec[1], shape[-1:], coords[sel][:, d - 1 :], w[sel], s[sel], y[sel])

        def f(at):
            out = np.full(len(at), np.nan)
            for i, row in enumerate(at):
                p = parts.get(tuple(row[: d - 1]))
                if p is not None:
                    out[i] = p(at[i : i + 1, d - 1 :])[0]
            return out

        return f
    raise KeyError(k)


def names(spec):
    return [spec[0]] + [n for x in spec[1:] if isinstance(x, (list, tuple)) for n in names(x)]


def check(case, ctx):
    shape = tuple(case["shape"])
    d = len(shape)
    n = int(np.prod(shape))
    coords = np.array(list(itertools.product(*[range(k) for k in shape])), dtype=float)
    y = np.resize(np.array(case["y"], dtype=float), n)
    s = np.resize(np.array(case["s"], dtype=float), n)
    w = np.resize(np.array(case["w"], dtype=float), n) * case.get("unit", 1.0)
    spec = case["spec"]
    kinds = names(spec)
    at = [[np.nan if v is None else v for v in row[:d]] for row in case["at"]]
    if not case["fractions"]:
        at = [[np.rint(v) for v in row] for row in at]
    at = np.concatenate([coords, np.array(at, dtype=float).reshape(-1, d)])
    if {"linear", "iso"} & set(kinds):
        at = at[np.all(np.isfinite(at), axis=1)]
    if d > 1 and {"reg", "normreg", "group"} & set(kinds):
        at = at[np.all((at == np.rint(at)) | ~np.isfinite(at), axis=1)]
    if {"reg", "normreg"} & set(kinds):
        at = at[~np.any(np.isinf(at), axis=1)]
    X = np.c_[coords, w, s]
    try:
        f = ref(spec, shape, coords, w, s, y)
        exp = f(at)
    except Open:
        ctx.label("open")
        return
    X0, y0, at0 = X.copy(), y.copy(), at.copy()
    est = build(spec, d)
    try:
        est.predict(at.copy())
    except Exception:
        pass
    else:
        raise Violation("%r predicts before it is fitted" % (spec,))
    if case["twice"]:
        # an earlier fit, on fewer or on more bins, leaves no trace
        first = (max(shape[0] - 1, 1) if case["twice"] == 1 else shape[0] + 3,) + shape[1:]
        c1 = np.array(list(itertools.product(*[range(k) for k in first])), dtype=float)
        est.fit(np.c_[c1, np.resize(w[::-1] + 1, len(c1)), np.resize(s, len(c1))], np.resize(y[::-1] * 2 + 1, len(c1)))
        est.predict(at.copy())
    est.fit(X, y)
    got = np.asarray(est.predict(at), dtype=float)
    require(got.shape == (len(at),), "shape %r" % (got.shape,))
    require(
        np.array_equal(X, X0) and np.array_equal(y, y0) and np.array_equal(at, at0, equal_nan=True),
        "%r changes its input" % (spec,),
    )
    tol = (1e-5 if {"prior", "one", "meta"} & set(kinds) else 1e-8) * (1 + np.abs(y).max() + s.max())
    bad = (np.isnan(got) != np.isnan(exp)) | (np.abs(np.where(np.isnan(got), 0, got) - np.where(np.isnan(exp), 0, exp)) > tol)
    require(
        not bad.any(),
        "%r at %r: %r instead of %r (shape %r, values %r, weights %r, uncertainties %r)"
        % (spec, at[bad][:4], got[bad][:4], exp[bad][:4], shape, y, w, s),
    )
    for name, other in (("copy", copy.deepcopy(est)), ("pickle", pickle.loads(pickle.dumps(est)))):
        require(
            np.array_equal(np.asarray(other.predict(at), dtype=float), got, equal_nan=True),
            "%r: %s predicts differently" % (spec, name),
        )
    # predictions are made row by row: the order of the rows does not matter
    back = np.asarray(est.predict(at[::-1].copy()), dtype=float)[::-1]
    require(np.allclose(back, got, rtol=1e-12, atol=1e-12, equal_nan=True), "%r: depends on the order of rows" % (spec,))
    for k in set(kinds):
        ctx.label(k)
    ctx.label("%dd" % d)
    ctx.mark(n >= 4 and len(np.unique(y)) > 1 and ((w == 0).any() or len(kinds) > 1))


T = st.sampled_from([2.5, 1.0, 0.3])
P = st.sampled_from([0.0, 1.0, -2.0])


@st.composite
def leaves(draw, d, lines):
    opts = ["linear", "iso"] if lines else ["values", "prior", "one", "wmean"]
    if d == 1 and not lines:
        opts += ["linear", "iso"]
    k = draw(st.sampled_from(opts))
    if k == "prior":
        return [k, draw(P), draw(T)]
    if k == "one":
        return [k, draw(T)]
    if k == "wmean":
        return [k, draw(st.one_of(st.none(), P))]
    if k == "iso":
        return [k, draw(st.booleans())]
    return [k]


@st.composite
def specs(draw, d, depth=2, lines=False):
    opts = ["leaf"]
    if depth:
        opts += ["norm", "reg", "normreg", "reg", "normreg"] if not lines else ["norm"]
        if d == 1:
            opts += ["section"]
        if d > 1:
            opts += ["group", "group"]
        if d == 2:
            opts += ["neutral"]
        if not lines:
            opts += ["meta"]
    k = draw(st.sampled_from(opts))
    if k == "leaf":
        return draw(leaves(d, lines))
    if k == "norm":
        return [k, draw(specs(d, depth - 1, lines))]
    if k in ("reg", "normreg"):
        return [k, draw(st.sampled_from(sorted(TYPES))), draw(specs(d, depth - 1, lines))]
    if k == "section":
        return [k, draw(st.sampled_from([-1.0, 0.0, 1.0, 1.5, 2.0, 9.0])), draw(leaves(1, True)), draw(leaves(1, True)), draw(st.sampled_from([None, -7.0]))]
    if k == "group":
        return [k, draw(specs(1, depth - 1, lines)), draw(st.sampled_from(["cb", "all"]))]
    if k == "neutral":
        return [k, draw(leaves(2, False))]
    return ["meta", draw(P), draw(T), draw(leaves(d, False))]


@st.composite
def cases(draw):
    d = draw(st.sampled_from([1, 2, 2, 2, 3]))
    shape = draw(st.lists(st.integers(1, 6 if d == 1 else 4), min_size=d, max_size=d))
    n = min(int(np.prod(shape)), 24)
    val = draw(st.sampled_from([st.integers(-5, 8).map(float), st.floats(-3, 3).map(lambda v: round(v, 6))]))
    unc = draw(st.sampled_from([st.just(1.0), st.sampled_from([0.1, 0.5, 1.0, 2.0]), st.floats(0.05, 5).map(lambda v: round(v, 4))]))
    pos = st.one_of(st.integers(-1, 6).map(float), st.integers(0, 3).map(float), st.integers(0, 3).map(float), st.floats(-2, 8).map(lambda v: round(v, 3)), st.sampled_from([None, float("inf")]))
    return dict(
        shape=shape, spec=draw(specs(d)),
        y=draw(st.lists(val, min_size=n, max_size=n)), s=draw(st.lists(unc, min_size=n, max_size=n)),
        w=draw(st.lists(st.sampled_from([0.0, 0.0, 1.0, 2.0, 7.5]), min_size=n, max_size=n)),
        at=draw(st.lists(st.tuples(pos, pos, pos).map(list), max_size=8)), fractions=draw(st.booleans()),
        twice=draw(st.integers(0, 2)), unit=draw(st.sampled_from([1.0, 1.0, 0.01, 1e-4, 1e4])),
    )


SUBS = [Sub("compositions", cases, check, 5000, shrink_rows=False)]
