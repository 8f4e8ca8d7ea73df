"""C27: feature properties shape the learned contributions."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from cbv import gen, ref
from cbv.core import Discard, Sub, require
from checks import refcheck
from checks.c17 import Recorder
from cyclic_boosting import common_smoothers, flags
from cyclic_boosting.smoothing import extrapolate, meta_smoother, multidim, onedim
from cyclic_boosting.smoothing.base import AbstractBinSmoother
from cyclic_boosting.smoothing.meta_smoother import RegressionType
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C27"
RULE = (
    "a case is a generated training problem with declared feature properties and a smoother selection; non-trivial = "
    "training converged, the problem is well-conditioned and the predictions are not all equal (sub-check shape: a "
    "feature with a declared shape has at least three bins with rows and a non-constant profile; "
    "sub-check chosen: bins without rows and positions beyond the known bins)"
)

DISC, INTER, EXTRA = RegressionType.discontinuous, RegressionType.interpolating, RegressionType.extrapolating
MODES = gen.FAST + ["nbinomc", "exponential"]


# --------------------------------------------------------------------------
# documented selection, written down independently


def has(p, flag):
    return (p & flag) == flag


def kind(p):
    if has(p, flags.IS_LINEAR):
        return "linear"
    if has(p, flags.IS_SEASONAL):
        return "seasonal"
    if has(p, flags.IS_MONOTONIC):
        return "increasing" if has(p, flags.INCREASING) else "decreasing" if has(p, flags.DECREASING) else "monotonic"
    if has(p, flags.IS_CONTINUOUS):
        return "continuous"
    return "ordered" if has(p, flags.IS_ORDERED) else "unordered"


def basic(p, normalize):
    return {
        "linear": lambda: extrapolate.LinearExtrapolator(),
        "seasonal": lambda: onedim.SeasonalSmoother(offset_tozero=not normalize),
        "increasing": lambda: onedim.IsotonicRegressor(increasing=True),
        "decreasing": lambda: onedim.IsotonicRegressor(increasing=False),
        "monotonic": lambda: onedim.IsotonicRegressor(increasing="auto"),
        "continuous": lambda: onedim.OrthogonalPolynomialSmoother(),
        "ordered": lambda: onedim.WeightedMeanSmootherNeighbors(),
        "unordered": lambda: onedim.WeightedMeanSmoother(prior_prediction=0),
    }[kind(p)]()


def reach(props):
    k = [kind(p) for p in props]
    if any(x in ("ordered", "unordered") for x in k):
        return DISC
    return EXTRA if all(x == "linear" for x in k) else INTER


def wrapped(s, normalize, limit):
    if normalize:
        return meta_smoother.NormalizationSmoother(s) if limit is None else meta_smoother.NormalizationRegressionTypeSmoother(s, limit)
    return s if limit is None else meta_smoother.RegressionTypeSmoother(s, limit)


class Plane(AbstractBinSmoother):
    """A smoother of any dimension that has a value everywhere."""

    def fit(self, X_for_smoother, y):
        self.total_ = float(np.sum(y))
        return self

    def predict(self, X):
        return self.total_ + np.asarray(X, dtype=float).sum(axis=1)


EXPLICIT = {
    "plane": Plane,
    "values": onedim.BinValuesSmoother,
    "isotonic": lambda: onedim.IsotonicRegressor(increasing=True),
    "ortho": onedim.OrthogonalPolynomialSmoother,
    "wmean": onedim.WeightedMeanSmoother,
    "to_one": lambda: onedim.RegularizeToPriorExpectationSmoother(0.0),
    "neighbours": onedim.WeightedMeanSmootherNeighbors,
}
EXPLICIT2 = {
    "plane": Plane,
    "values": multidim.BinValuesSmoother,
    "to_one": lambda: multidim.RegularizeToPriorExpectationSmoother(0.0),
    "wmean": multidim.WeightedMeanSmoother,
}


def explicit(case):
    out = {}
    for g, name in case["choice"]["explicit"]:
        out[tuple(g)] = (EXPLICIT if len(g) == 1 else EXPLICIT2)[name]()
    return out


def expected_choice(case):
    ch = case["choice"]
    norm, typed = ch["normalize"], ch["typed"]
    special = explicit(case)

    def make(group):
        group = tuple(group)
        props = [case["props"].get(c, flags.HAS_MISSING) for c in group]
        if ch["kind"] == "groupby":
            limit = reach(props[-1:]) if typed else None
            if group in special:
                s = wrapped(copy.deepcopy(special[group]), norm, limit)
            else:
                inner = special.get(group[-1:])
                inner = copy.deepcopy(inner) if inner is not None else basic(props[-1], norm)
                s = wrapped(inner, norm, limit)
                if len(group) > 1:
                    s = multidim.GroupBySmootherCB(s, n_dim=len(group))
            return s
        limit = reach(props) if typed else None
        if ch["kind"] == "none":
            s = multidim.BinValuesSmoother() if len(group) > 1 else onedim.BinValuesSmoother()
        elif group in special:
            s = copy.deepcopy(special[group])
        elif len(group) > 1:
            s = multidim.WeightedMeanSmoother(prior_prediction=0)
        else:
            s = basic(props[0], norm)
        return wrapped(s, norm, limit)

    return make


class OwnGroupBy(common_smoothers.SmootherChoiceGroupBy):
    """A user's class derived from a smoother selection behaves like its base class."""


class OwnWeightedMean(common_smoothers.SmootherChoiceWeightedMean):
    pass


def choice(case):
    ch = case["choice"]
    if ch["kind"] == "default":
        return None
    if ch["kind"] == "none":
        return common_smoothers.NoSmootherChoice(use_regression_type=ch["typed"], use_normalization=ch["normalize"])
    cls = common_smoothers.SmootherChoiceGroupBy if ch["kind"] == "groupby" else common_smoothers.SmootherChoiceWeightedMean
    if ch.get("own"):
        cls = OwnGroupBy if ch["kind"] == "groupby" else OwnWeightedMean
    return cls(use_regression_type=ch["typed"], use_normalization=ch["normalize"], explicit_smoothers=explicit(case) or None)


def reference(case):
    try:
        return ref.RefModel(case, expected_choice(case)).fit()
    except ref.Diverged:
        raise Discard("diverged")
    except ref.Borderline as b:
        raise Discard("borderline: %s" % b)
    except (np.linalg.LinAlgError, ValueError, TypeError) as e:
        raise Discard("smoother: %s" % str(e)[:40])


def check_selection(case, ctx):
    model = reference(case)
    est = gen.build(case, smoother_choice=choice(case))
    y = gen.target(case)
    X, P = gen.frame(case), gen.pred_frame(case)
    try:
        est.fit(gen.frame(case), y)
    except ConvergenceError:
        require(False, "training diverges with the selected smoothers")
    pairs = [("training rows", gen.raw_predict(case, est, X), lambda m: m.predict(X))]
    con = est.get_feature_contributions(P)
    for g in con:
        pairs.append(("contribution of %s" % g, con[g], lambda m, g=g: gen.unlink(case["mode"], m.contributions(P)[g])))
    for what, got, of in pairs:
        want = of(model)
        d = refcheck.deviation(case["mode"], got, want, y)
        if d <= refcheck.TOL:
            continue
        for k in range(8):
            if refcheck.deviation(case["mode"], of(reference(refcheck.perturbed(case, k))), want, y) > refcheck.TOL * 1e-2:
                raise Discard("ill-conditioned")
        require(False, "%s (%r): %r instead of %r (deviation %.3g)" % (what, case["choice"], np.asarray(got)[:6], np.asarray(want)[:6], d))
    ctx.label("choice:" + case["choice"]["kind"])
    for g in case["groups"]:
        ctx.label("%dd" % len(g))
        for c in g:
            ctx.label(kind(case["props"].get(c, flags.HAS_MISSING)))
    if case["choice"]["explicit"]:
        ctx.label("explicit")
    ctx.label("mode:" + case["mode"])
    ctx.mark(len(np.unique(model.predict(X))) > 1)


SETS = ("cont", "lin", "seas", "mono", "inc", "dec", "unord", "ord")


@st.composite
def selections(draw, modes):
    case = draw(gen.problems(modes=modes, smoothers=("default",), flag_sets=SETS, max_bins=8, hier=True))
    if draw(st.integers(0, 4)) == 0:
        case["props"] = {c: v for i, (c, v) in enumerate(case["props"].items()) if i}
    for c in list(case["props"]):
        # flags without influence on the smoother
        if draw(st.integers(0, 3)) == 0:
            case["props"][c] |= draw(st.sampled_from([flags.USE_ORIGINAL, flags.CORR_TO_WIDTH, flags.HAS_MISSING]))
    ch = {"kind": draw(st.sampled_from(["default", "wmean", "groupby", "groupby", "none"])), "explicit": [], "typed": True, "normalize": True}
    if ch["kind"] != "default":
        ch["typed"], ch["normalize"] = draw(st.booleans()), draw(st.booleans())
        ch["own"] = draw(st.booleans())
        if ch["kind"] != "none" and draw(st.booleans()):
            pool = [list(g) for g in case["groups"]] + [[g[-1]] for g in case["groups"]]
            for g in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique_by=tuple)):
                ch["explicit"].append([g, draw(st.sampled_from(sorted(EXPLICIT if len(g) == 1 else EXPLICIT2)))])
    case["choice"] = ch
    return case


# --------------------------------------------------------------------------
# the smoother itself, also beyond the known bins


def check_chosen(case, ctx):
    group = tuple(case["groups"][0])
    props = tuple(case["props"][c] for c in group)
    d, shape = len(group), case["shape"]
    coords = np.array(list(itertools.product(*[range(k) for k in shape])), dtype=float)
    n = len(coords)
    rs = np.random.RandomState(case["seed"])
    X = np.c_[coords, np.where(rs.uniform(size=n) < 0.25, 0.0, rs.randint(1, 20, size=n)), rs.uniform(0.1, 2, size=n)]
    y = np.round(rs.normal(size=n), 3)
    at = np.concatenate([coords, np.array(case["at"], dtype=float)[:, :d]])
    ch = choice(case) or common_smoothers.SmootherChoiceWeightedMean()
    with np.errstate(all="ignore"):
        try:
            want = expected_choice(case)(group)
            want.fit(X.copy(), y.copy())
            want = want.predict(at.copy())
        except (np.linalg.LinAlgError, ValueError, TypeError) as e:
            raise Discard("smoother: %s" % str(e)[:40])
        got = ch.choice_fct(group, props, None)
        got.fit(X.copy(), y.copy())
        got = got.predict(at.copy())
    require(
        np.allclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True),
        "%r with properties %r, %r, bins %r, at %r: %r instead of %r" % (group, props, case["choice"], shape, at, got, want),
    )
    out = np.any(at >= np.array(shape), axis=1)
    ctx.mark(bool(out.any() and (X[:, d] == 0).any()))
    for c in group:
        ctx.label(kind(case["props"][c]))
    ctx.label("%dd" % d)
    if np.isfinite(np.asarray(want, dtype=float)[out]).any():
        ctx.label("extrapolates")
    if case["choice"]["explicit"]:
        ctx.label("explicit")


@st.composite
def chosen(draw):
    d = draw(st.sampled_from([1, 2, 2, 3]))
    group = ["f%d" % i for i in range(d)]
    shape = draw(st.lists(st.integers(2, 5), min_size=d, max_size=d))
    flagged = st.sampled_from(
        [flags.IS_LINEAR, flags.IS_LINEAR, flags.IS_CONTINUOUS, flags.IS_SEASONAL, flags.IS_MONOTONIC, flags.IS_MONOTONIC | flags.INCREASING,
         flags.IS_MONOTONIC | flags.DECREASING, flags.IS_UNORDERED, flags.IS_ORDERED]
    )
    props = {c: draw(flagged) | draw(st.sampled_from([0, 0, flags.HAS_MISSING, flags.MISSING_NOT_LEARNED])) for c in group}
    ch = {"kind": draw(st.sampled_from(["default", "wmean", "groupby", "groupby", "none"])), "explicit": [], "typed": True, "normalize": True}
    if ch["kind"] != "default":
        ch["typed"], ch["normalize"] = draw(st.sampled_from([True, True, False])), draw(st.booleans())
        ch["own"] = draw(st.booleans())
        if ch["kind"] != "none" and draw(st.booleans()):
            for g in draw(st.lists(st.sampled_from([group, group[-1:], group[:1]]), min_size=1, max_size=2, unique_by=tuple)):
                ch["explicit"].append([g, draw(st.sampled_from(["plane", "plane"] + sorted(EXPLICIT if len(g) == 1 else EXPLICIT2)))])
    pos = st.integers(-1, 7).map(float)
    return dict(
        groups=[group], props=props, shape=shape, choice=ch, seed=draw(st.integers(0, 2**31 - 1)),
        at=draw(st.lists(st.tuples(pos, pos, pos).map(list), min_size=1, max_size=10)),
    )


# --------------------------------------------------------------------------
# the shape of the trained contributions


def check_shape(case, ctx):
    mode = case["mode"]
    rec = Recorder()
    est = gen.build(case, observers=[rec])
    try:
        est.fit(gen.frame(case), gen.target(case))
    except ConvergenceError:
        raise Discard("diverged")
    # against a growing loss, contributions are pulled towards the unsmoothed ones
    if any(s[2] > 1.99 * rec.seen[0][2] for s in rec.seen):
        raise Discard("diverging")
    X, P = gen.frame(case), gen.pred_frame(case)
    w = np.ones(len(X)) if case["w"] is None else np.asarray(case["w"])
    shown = False
    for g in case["groups"]:
        if len(g) > 1 or (mode == "exponential"):
            continue
        c, k = g[0], kind(case["props"][g[0]])
        v = X[c].values
        ok = np.isfinite(v) & (v >= 0)
        if not ok.any():
            continue
        n = int(v[ok].max()) + 1
        if n < 3:
            continue
        Q = P.iloc[[0] * n].copy()
        Q[c] = np.arange(n, dtype=float)
        con = gen.link(mode, est.get_feature_contributions(Q)[c])
        if not np.isfinite(con).all():
            raise Discard("probability rounded to one")
        size = 1e-8 * (1 + np.abs(con).max())
        if k in ("increasing", "decreasing"):
            d = np.diff(con) * (1 if k == "increasing" else -1)
            require(np.all(d >= -size), "%s feature %s has the profile %r" % (k, c, con))
        elif k == "linear" and (mode not in gen.MULT or (case["params"]["max_iter"] == 1 and np.abs(con).max() < 0.69)):
            line = np.polyval(np.polyfit(np.arange(n), con, 1), np.arange(n))
            require(np.all(np.abs(con - line) <= 100 * size), "linear feature %s has the profile %r" % (c, con))
        elif k == "seasonal" and mode not in gen.MULT:
            t = 2 * np.pi * np.arange(n) / n
            A = np.c_[np.ones(n), np.sin(t), np.cos(t)]
            wave = A @ np.linalg.lstsq(A, con, rcond=None)[0]
            require(np.all(np.abs(con - wave) <= 1e-4 * (1e-6 + np.abs(con).max())), "seasonal feature %s has the profile %r" % (c, con))
        else:
            continue
        ctx.label(k)
        shown = shown or np.ptp(con) > 1e-6
    ctx.label("mode:" + mode)
    ctx.mark(shown)


def shapes():
    return gen.problems(
        modes=gen.FAST * 2 + ["nbinomc", "mquantile", "aquantile"], smoothers=("default", "wmean", "groupby"),
        flag_sets=("inc", "dec", "lin", "seas", "inc", "dec", "unord"), max_bins=10, min_rows=12, max_rows=90,
    )


SUBS = [
    Sub("selection", lambda: selections(gen.FAST), check_selection, 600),
    Sub("selection_special", lambda: selections(["nbinomc", "exponential"]), check_selection, 140),
    Sub("shape", shapes, check_shape, 600),
    Sub("chosen", chosen, check_chosen, 1500, shrink_rows=False),
]
