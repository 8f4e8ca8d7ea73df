"""Generators of training problems and builders of estimators.

A problem ("case") is a JSON-serialisable dict:

  mode     estimator key (see MODES)
  cols     {name: [bin numbers; null/NaN or negative = missing]}
  y        target list
  groups   list of lists of column names (feature groups)
  ext      external feature groups (mode "exponential" only)
  props    {name: feature property bit mask}
  w        weights list or None
  prior    prior predictions list or None
  extra    {name: list} further columns used by a mode (price, mean, ...)
  params   estimator parameters (plain values)
  pred     {name: [bin numbers]} rows to predict
  row_keys paths of all row-aligned lists (for row minimisation)
"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cyclic_boosting import common_smoothers, flags
from cyclic_boosting.smoothing import multidim, onedim

NAN = float("nan")

MULT = ["poisson", "nbinom", "mquantile", "mgeneric", "exponential"]
ADD = ["location", "locpoisson", "gbs", "aquantile", "ageneric"]
LOGIT = ["classifier", "gclassifier", "nbinomc"]
FAST = ["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier"]
SLOW = ["mquantile", "aquantile", "mgeneric", "ageneric", "gclassifier"]
ALL = FAST + SLOW + ["nbinomc", "exponential"]

PRIOR_MODES = ["poisson", "nbinom", "location", "locpoisson", "classifier", "mquantile", "aquantile"]


def link(mode, x):
    x = np.asarray(x, dtype=float)
    if mode in MULT:
        return np.log(x)
    if mode in ADD:
        return x
    return np.log(x / (1 - x))


def unlink(mode, x):
    x = np.asarray(x, dtype=float)
    if mode in MULT:
        return np.exp(x)
    if mode in ADD:
        return x.copy()
    return 1 / (1 + np.exp(-x))


# --------------------------------------------------------------------------
# costs for the generic loss estimators


def cost_quadratic(prediction, y, weights):
    return np.nansum(weights * (y - prediction) ** 2) / max(np.nansum(weights), 1e-300)


def cost_pinball30(prediction, y, weights):
    d = y - prediction
    return np.nansum(np.where(d >= 0, 0.3 * d, -0.7 * d) * weights) / max(np.nansum(weights), 1e-300)


def cost_expectile20(prediction, y, weights):
    d = y - prediction
    return np.nansum(np.where(d >= 0, 0.2, 0.8) * d * d * weights) / max(np.nansum(weights), 1e-300)


def cost_logloss(prediction, y, weights):
    p = np.clip(prediction, 1e-9, 1 - 1e-9)
    return -np.sum(weights * (y * np.log(p) + (1 - y) * np.log(1 - p))) / max(np.sum(weights), 1e-300)


COSTS = {"quadratic": cost_quadratic, "pinball30": cost_pinball30, "expectile20": cost_expectile20, "logloss": cost_logloss}


# --------------------------------------------------------------------------
# learning rates and smoother choices


def lr_const_half(iteration, maximal_iteration, feature=None):
    return 0.5


def lr_halving(iteration, maximal_iteration, feature=None):
    return 1.0 / iteration


def get_learn_rate(name):
    from cyclic_boosting import learning_rate as lr

    return {
        None: None,
        "one": lr.constant_learn_rate_one,
        "linear": lr.linear_learn_rate,
        "logistic": lr.logistic_learn_rate,
        "half": lr.half_linear_learn_rate,
        "const_half": lr_const_half,
        "halving": lr_halving,
    }[name]


def get_smoother_choice(name):
    """Smoothers are chosen per feature group by the library, or switched off."""
    from cyclic_boosting import common_smoothers as cs

    if name == "default":
        return None
    if name == "wmean":
        return cs.SmootherChoiceWeightedMean()
    if name == "groupby":
        return cs.SmootherChoiceGroupBy(use_regression_type=True, use_normalization=False)
    if name == "none":
        return NoSmootherChoice()
    raise KeyError(name)


class NoSmootherChoice(common_smoothers.SmootherChoice):
    """Unsmoothed bin values for every feature group."""

    def choice_fct(self, feature_group, feature_property, feature_type=None):
        if len(feature_group) == 1:
            return onedim.BinValuesSmoother()
        return multidim.BinValuesSmoother()

    def get_onedim_smoother(self, feature_property, name=None):
        return onedim.BinValuesSmoother()

    def get_multidim_smoother(self, feature_group, feature_property):
        return multidim.BinValuesSmoother()


# --------------------------------------------------------------------------
# building


def frame(case, which="cols", extra=True):
    cols = case[which]
    d = {}
    for name, vals in cols.items():
        d[name] = np.array([NAN if v is None else v for v in vals], dtype=float)
    X = pd.DataFrame(d)
    if which == "cols":
        if case.get("w") is not None:
            X["W"] = np.asarray(case["w"], dtype=float)
        if case.get("prior") is not None:
            X["PRIOR"] = np.array([NAN if v is None else v for v in case["prior"]], dtype=float)
        for k, v in (case.get("extra") or {}).items():
            X[k] = np.array([NAN if x is None else x for x in v], dtype=float)
    return X


def pred_frame(case):
    """Rows to predict, with the auxiliary columns the mode needs."""
    X = frame(case, "pred")
    n = len(X)
    if case.get("w") is not None:
        X["W"] = np.ones(n)
    if case.get("prior") is not None:
        src = np.array([NAN if v is None else v for v in case["prior"]], dtype=float)
        X["PRIOR"] = src[np.arange(n) % len(src)]
    for k, v in (case.get("extra") or {}).items():
        src = np.array([NAN if x is None else x for x in v], dtype=float)
        X[k] = src[np.arange(n) % len(src)]
    return X


def target(case):
    return np.asarray(case["y"], dtype=float)


def groups_of(case, key="groups"):
    return [g[0] if len(g) == 1 else tuple(g) for g in case[key]]


def build(case, **over):
    cls, kw = settings(case, **over)
    return cls(**kw)


def settings(case, **over):
    """The class of the estimator and its constructor arguments."""
    import cyclic_boosting as cb

    mode = case["mode"]
    p = dict(case["params"])
    kw = dict(
        feature_properties={k: int(v) for k, v in case["props"].items()},
        maximal_iterations=p["max_iter"],
        minimal_loss_change=p.get("min_loss", 1e-6),
        minimal_factor_change=p.get("min_factor", 1e-4),
        smoother_choice=get_smoother_choice(p.get("smoother", "default")),
        learn_rate=get_learn_rate(p.get("lr")),
    )
    if case.get("w") is not None:
        kw["weight_column"] = "W"
    if case.get("prior") is not None and mode in PRIOR_MODES + ["nbinomc", "exponential"]:
        kw["prior_prediction_column"] = "PRIOR"
    if mode != "exponential":
        kw["feature_groups"] = groups_of(case)
    if mode not in ("exponential", "nbinomc"):
        kw["aggregate"] = p.get("aggregate", True)
        if p.get("hier"):
            kw["hierarchical_feature_groups"] = [g[0] if len(g) == 1 else tuple(g) for g in p["hier"]]
    if p.get("output_column"):
        kw["output_column"] = p["output_column"]
    kw.update(over)
    if mode == "poisson":
        return cb.CBPoissonRegressor, kw
    if mode == "nbinom":
        return cb.CBNBinomRegressor, dict(a=p.get("a", 1.0), c=p.get("c", 0.0), **kw)
    if mode == "location":
        return cb.CBLocationRegressor, kw
    if mode == "locpoisson":
        return cb.CBLocPoissonRegressor, kw
    if mode == "classifier":
        return cb.CBClassifier, kw
    if mode == "gbs":
        return cb.CBGBSRegressor, dict(regalpha=p.get("regalpha", 0.0), **kw)
    if mode == "mquantile":
        return cb.CBMultiplicativeQuantileRegressor, dict(quantile=p.get("quantile", 0.5), **kw)
    if mode == "aquantile":
        return cb.CBAdditiveQuantileRegressor, dict(quantile=p.get("quantile", 0.5), **kw)
    if mode == "mgeneric":
        return cb.CBMultiplicativeGenericCRegressor, dict(costs=COSTS[p.get("cost", "quadratic")], **kw)
    if mode == "ageneric":
        return cb.CBAdditiveGenericCRegressor, dict(costs=COSTS[p.get("cost", "quadratic")], **kw)
    if mode == "gclassifier":
        return cb.CBGenericClassifier, dict(costs=COSTS[p.get("cost", "logloss")], **kw)
    if mode == "nbinomc":
        return cb.CBNBinomC, dict(
            mean_prediction_column=kw.pop("mean_prediction_column", "MU"),
            gamma=p.get("gamma", 0.0),
            bayes=p.get("bayes", False),
            n_steps=p.get("n_steps", 15),
            **kw,
        )
    if mode == "exponential":
        return cb.CBExponential, dict(
            external_colname=kw.pop("external_colname", "PR"),
            standard_feature_groups=kw.pop("standard_feature_groups", None) or groups_of(case),
            external_feature_groups=kw.pop("external_feature_groups", None) or groups_of(case, "ext"),
            var_prior_exponent=p.get("var_prior_exponent", 0.1),
            prior_exponent_colname=kw.pop("prior_exponent_colname", "PEXP") if "PEXP" in case["extra"] else None,
            a=p.get("a", 1.0),
            c=p.get("c", 0.0),
            **kw,
        )
    raise KeyError(mode)


def raw_predict(case, est, X):
    """The continuous prediction of any mode (probability for the classifier)."""
    if case["mode"] == "classifier":
        return np.asarray(est.predict_proba(X))[:, 1]
    return np.asarray(est.predict(X))


# --------------------------------------------------------------------------
# random material derived from a drawn seed


def contiguous(v):
    """Relabel the finite non-negative entries to 0..k-1 without gaps."""
    v = np.asarray(v, dtype=float)
    ok = np.isfinite(v) & (v >= 0)
    out = v.copy()
    if ok.any():
        _, inv = np.unique(v[ok], return_inverse=True)
        out[ok] = inv
    return out


FLAG_SETS = {
    "cont": flags.IS_CONTINUOUS,
    "lin": flags.IS_CONTINUOUS | flags.IS_LINEAR,
    "seas": flags.IS_CONTINUOUS | flags.IS_SEASONAL,
    "mono": flags.IS_MONOTONIC,
    "inc": flags.IS_MONOTONIC | flags.INCREASING,
    "dec": flags.IS_MONOTONIC | flags.DECREASING,
    "unord": flags.IS_UNORDERED,
    "ord": flags.IS_ORDERED,
}
MISS_SETS = {"no": 0, "miss": flags.HAS_MISSING, "notlearned": flags.MISSING_NOT_LEARNED}


def make_target(rs, mode, kind, eff):
    """Targets with a given link-space effect per row."""
    n = len(eff)
    if mode in ("classifier", "gclassifier"):
        if kind == "const":
            return np.full(n, float(rs.randint(2)))
        p = 1 / (1 + np.exp(-(eff + rs.choice([-2.0, 0.0, 1.0]))))
        return (rs.uniform(size=n) < p).astype(float)
    if mode in ("location", "aquantile", "ageneric"):
        if kind == "const":
            return np.full(n, float(rs.choice([0.5, 2.0, 30.0])))
        scale = rs.choice([0.1, 1.0, 50.0])
        off = rs.choice([0.0, 5.0, 100.0])
        y = off * scale + scale * (2 * eff + rs.normal(size=n))
        # the identity-link base is the plain mean, any sign is allowed
        return np.round(y, 6)
    if mode == "gbs":
        sign = np.where(rs.uniform(size=n) < 0.5, 1.0, -1.0)
        y = sign * np.round(np.exp(0.5 * eff) * rs.uniform(0.5, 2.0, size=n), 6)
        if kind == "sparse":
            y = y * (rs.uniform(size=n) < 0.6)
        if not np.any(y != 0):
            y[0] = 1.0
        return y
    # non-negative targets
    mu = np.exp(np.clip(eff, -3, 3)) * rs.choice([0.3, 2.0, 20.0])
    if kind == "const":
        return np.full(n, float(rs.choice([1.0, 3.0, 0.25])))
    if kind == "zeros":
        return np.zeros(n)
    if kind == "sparse":
        return rs.poisson(mu) * (rs.uniform(size=n) < 0.3) * 1.0
    if kind == "spike":
        y = rs.poisson(mu).astype(float)
        y[rs.randint(n)] += 1000.0
        return y
    if kind == "heavy":
        return np.round(mu * np.exp(rs.normal(size=n) * 3.0), 6) * (rs.uniform(size=n) < 0.7)
    if kind == "real":
        return np.round(mu * rs.gamma(2.0, 0.5, size=n), 6)
    return rs.poisson(mu).astype(float)


# sizes beyond the usual small problems: many rows, bins, features and iterations
LARGE = dict(min_rows=200, max_rows=1500, min_cols=2, max_cols=5, min_bins=5, max_bins=70, max_iter=25, pred_rows=60, spread=True)


@st.composite
def problems(
    draw,
    modes=tuple(ALL),
    max_rows=80,
    min_rows=5,
    max_cols=3,
    max_bins=6,
    min_cols=1,
    min_bins=1,
    smoothers=("default", "none", "groupby"),
    weights=("none", "none", "int", "real"),
    priors=(False, False, True),
    kinds=("count", "count", "real", "sparse", "const"),
    flag_sets=("unord", "unord", "cont", "ord", "lin", "seas", "mono", "inc", "dec"),
    missing=("no", "miss", "notlearned"),
    multidim=True,
    hier=False,
    max_iter=6,
    learn_rates=(None, None, "one", "linear", "logistic", "const_half", "halving"),
    aggregate=(True, True, True, False),
    pred_rows=12,
    gaps=False,
    names=None,
    converge=False,
    wide_prior=False,
    empty=True,
    spread=False,
):
    rs = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))

    def size(low, high):
        # spread: uniform instead of mostly small sizes
        return int(rs.randint(low, high + 1)) if spread else draw(st.integers(low, high))

    mode = draw(st.sampled_from(list(modes)))
    slow = mode in SLOW
    n = size(min_rows, max_rows // 2 if slow else max_rows)
    ncol = size(min_cols, min(max_cols, 2 if max_bins < 20 else 3) if slow else max_cols)
    names = list(names or ["a", "b", "c", "d", "e"])[:ncol]
    cols, props = {}, {}
    eff = np.zeros(n)
    nb = {}
    for name in names:
        k = size(min_bins, min(max_bins, 4 if max_bins < 20 else 15) if slow else max_bins)
        fs = draw(st.sampled_from(list(flag_sets)))
        ms = draw(st.sampled_from(list(missing)))
        v = rs.randint(0, k, size=n).astype(float)
        if draw(st.booleans()):  # skewed occupancy
            v = np.minimum(v, rs.randint(0, k, size=n))
        if not gaps:
            v = contiguous(v)
        f = rs.normal(size=k) * draw(st.sampled_from([0.0, 0.5, 1.0]))
        eff += f[v.astype(int)]
        flag = FLAG_SETS[fs] | MISS_SETS[ms]
        if ms != "no" or draw(st.integers(0, 4)) == 0:
            frac = draw(st.sampled_from([0.0, 0.1, 0.5, 0.1, 0.5, 0.1, 0.5, 1.0 if empty else 0.5]))
            m = rs.uniform(size=n) < frac
            if m.all() and n > 1 and frac < 1:
                m[rs.randint(n)] = False
            v[m] = NAN if draw(st.booleans()) else -1.0
            if not gaps:
                v = contiguous(v)
        cols[name] = v
        fin = v[np.isfinite(v) & (v >= 0)]
        nb[name] = int(fin.max()) + 1 if len(fin) else 1
        props[name] = int(flag)
    kind = draw(st.sampled_from(list(kinds)))
    y = make_target(rs, mode, kind, eff)
    groups = [[c] for c in names]
    if multidim and ncol >= 2:
        for _ in range(draw(st.integers(0, 1 if slow else 2))):
            g = [names[i] for i in rs.permutation(ncol)[: draw(st.integers(2, ncol))]]
            if g not in groups and np.prod([nb[c] for c in g]) < 20000:
                groups.append(g)
    perm = rs.permutation(len(groups))
    groups = [groups[i] for i in perm]
    if len(groups) > 1 and draw(st.integers(0, 3)) == 0:
        groups = groups[:-1]
    used = sorted({c for g in groups for c in g})

    w = None
    wk = draw(st.sampled_from(list(weights)))
    if wk == "int":
        w = rs.randint(0, 4, size=n).astype(float)
        w[rs.randint(n)] = 2.0
    elif wk == "posint":
        w = rs.randint(1, 4, size=n).astype(float)
    elif wk == "real":
        w = np.round(rs.uniform(0.1, 3.0, size=n), 4)
    elif wk == "extreme":
        w = np.round(10.0 ** rs.uniform(-3, 3, size=n), 6)
    elif wk == "huge":
        # all on one level, or over many orders of magnitude
        w = 10.0 ** rs.uniform(*[(-9, 9), (5, 9), (-9, -5)][rs.randint(3)], size=n)
    elif wk == "ones":
        w = np.ones(n)
    if mode == "nbinomc":
        w = None

    prior = None
    if draw(st.sampled_from(list(priors))) and mode in PRIOR_MODES:
        if mode == "classifier":
            prior = rs.uniform(0.05, 0.95, size=n)
        elif mode in ADD:
            prior = rs.normal(size=n) + y.mean()
        else:
            prior = 10.0 ** rs.uniform(-3, 3, size=n) if wide_prior else rs.gamma(2.0, 1.0, size=n) + 0.01
        prior = np.round(prior, 6)
        if draw(st.integers(0, 2)) == 0:
            prior[rs.randint(n)] = NAN

    extra = {}
    if mode == "nbinomc":
        extra["MU"] = np.round(np.exp(np.clip(eff, -2, 2)) * 3 + 0.05, 5)
    ext = None
    if mode == "exponential":
        extra["PR"] = np.round(rs.uniform(0.3, 1.2, size=n), 4)
        if draw(st.booleans()):
            extra["PR"][rs.uniform(size=n) < 0.2] = NAN
        if draw(st.integers(0, 2)) == 0:
            extra["PEXP"] = np.round(-rs.uniform(0.5, 3.0, size=n), 4)
        k = draw(st.integers(1, len(groups)))
        ext = [groups[i] for i in rs.permutation(len(groups))[:k]]

    params = {
        "max_iter": size(1, min(max_iter, 3) if slow else max_iter),
        "smoother": draw(st.sampled_from(list(smoothers))),
        "lr": draw(st.sampled_from(list(learn_rates))),
        "aggregate": draw(st.sampled_from(list(aggregate))),
    }
    if not converge:
        params["min_loss"] = draw(st.sampled_from([0.0, 1e-6, 1e-3]))
        params["min_factor"] = draw(st.sampled_from([0.0, 1e-4, 1e-2]))
    else:
        params["min_loss"] = -1.0
        params["min_factor"] = -1.0
    if mode in ("nbinom", "exponential") and draw(st.booleans()):
        params["a"] = draw(st.sampled_from([1.0, 1.5, 0.7]))
        params["c"] = draw(st.sampled_from([0.0, 0.1, 0.5]))
    if mode == "gbs":
        params["regalpha"] = draw(st.sampled_from([0.0, 0.5, 3.0]))
    if mode in ("mquantile", "aquantile"):
        params["quantile"] = draw(st.sampled_from([0.5, 0.2, 0.8, 0.95]))
    if mode in ("mgeneric", "ageneric"):
        params["cost"] = draw(st.sampled_from(["quadratic", "pinball30"]))
    if mode == "nbinomc":
        params["bayes"] = draw(st.booleans())
        params["gamma"] = draw(st.sampled_from([0.0, 0.1]))
        params["n_steps"] = draw(st.sampled_from([15, 5, 2]))
    if hier and mode not in ("exponential", "nbinomc") and len(groups) > 1 and draw(st.booleans()):
        k = draw(st.integers(1, len(groups) - 1))
        params["hier"] = [groups[i] for i in sorted(rs.permutation(len(groups))[:k])]

    pred = {}
    for name in names:
        k = nb[name]
        v = rs.randint(0, k, size=pred_rows).astype(float)
        r = rs.uniform(size=pred_rows)
        v[r < 0.08] = NAN
        v[(r >= 0.08) & (r < 0.12)] = -1.0
        v[(r >= 0.12) & (r < 0.2)] = k + rs.randint(0, 3)
        pred[name] = v
    case = {
        "mode": mode,
        "cols": {k: v.tolist() for k, v in cols.items()},
        "y": y.tolist(),
        "groups": groups,
        "ext": ext,
        "props": props,
        "w": None if w is None else w.tolist(),
        "prior": None if prior is None else prior.tolist(),
        "extra": {k: v.tolist() for k, v in extra.items()},
        "params": params,
        "pred": {k: v.tolist() for k, v in pred.items()},
        "kind": kind,
        "used": used,
    }
    case["row_keys"] = row_keys(case)
    return case


def row_keys(case):
    keys = ["cols." + c for c in case["cols"]] + ["y"]
    if case.get("w") is not None:
        keys.append("w")
    if case.get("prior") is not None:
        keys.append("prior")
    keys += ["extra." + c for c in (case.get("extra") or {})]
    return keys


def valid_problem(case, original):
    """Does a case with removed rows still satisfy the documented preconditions?"""
    if len(case["y"]) < min(4, len(original["y"])):
        return False
    if case.get("w") is not None and not sum(case["w"]) > 0:
        return False
    if case["mode"] == "gbs" and not any(case["y"]):
        return False

    def has_gap(v):
        v = np.array([NAN if x is None else x for x in v], dtype=float)
        u = np.unique(v[np.isfinite(v) & (v >= 0)])
        return len(u) == 0 or not np.array_equal(u, np.arange(len(u)))

    for c, v in case["cols"].items():
        if has_gap(v) and not has_gap(original["cols"][c]):
            return False
    return True


# --------------------------------------------------------------------------
# fitting


def fit(case, X=None, y=None, **over):
    """Fit; a legitimate convergence failure is reported as None."""
    from cyclic_boosting.utils import ConvergenceError

    est = build(case, **over)
    try:
        est.fit(frame(case) if X is None else X, target(case) if y is None else y)
    except ConvergenceError:
        return None
    return est


def max_rel(a, b):
    """Largest deviation relative to the magnitude (at least 1) of b."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return np.inf
    ok = ~na & ~(np.isinf(a) & (a == b))
    if not ok.any():
        return 0.0
    return float(np.max(np.abs(a[ok] - b[ok]) / np.maximum(np.abs(b[ok]), 1.0)))


def rel(a, b, floor=0.0):
    """Largest deviation relative to the magnitude of b (floor for zeros)."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return np.inf
    ok = ~na & (a != b)
    if not ok.any():
        return 0.0
    return float(np.max(np.abs(a[ok] - b[ok]) / np.maximum(np.maximum(np.abs(b[ok]), np.abs(a[ok])), floor)))
