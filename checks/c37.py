"""C37: prior predictions set the base value up to a global scale."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen, stable
from cbv.core import Discard, Sub, require

PROPERTY = "C37"
RULE = (
    "a case is a training problem with a prior prediction column, possibly with missing or out-of-range entries; "
    "non-trivial = training converged and the priors differ between rows (or the compared models have an effect)"
)


def total_link(case, est, X):
    con = est.get_feature_contributions(X)
    return sum(gen.link(case["mode"], con[" ".join(g)]) for g in case["groups"])


def weighted(case, x):
    w = np.asarray(case["w"], dtype=float) if case["w"] is not None else np.ones(len(x))
    ok = np.isfinite(x)
    return np.sum(x[ok] * w[ok]) / np.sum(w[ok])


def no_prior(case):
    c = dict(case, prior=None)
    c["row_keys"] = gen.row_keys(c)
    return c


def predict(case, P=None):
    est = gen.fit(case)
    if est is None:
        return None
    return gen.raw_predict(case, est, gen.pred_frame(case) if P is None else P)


def usable(case):
    p = np.array([np.nan if v is None else v for v in case["prior"]], dtype=float)
    w = np.asarray(case["w"], dtype=float) if case["w"] is not None else np.ones(len(p))
    if not np.sum(w[np.isfinite(p)]) > 0:
        raise Discard("no prior with weight")
    return p


def check_base(case, ctx):
    mode = case["mode"]
    prior = usable(case)
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    level = weighted(case, prior)
    with np.errstate(all="ignore"):
        link_level = float(gen.link(mode, level))
    if not np.isfinite(link_level):
        raise Discard("prior level not in the domain of the link")
    scale = float(gen.link(mode, np.float64(est.global_scale_)))
    y = np.asarray(case["y"], dtype=float)
    if mode not in ("mquantile", "aquantile"):
        m = weighted(case, y) + 0.001
        if mode in gen.LOGIT:
            m = min(m, 0.999)
        require(
            abs(float(est.global_scale_) - m) <= 1e-9 * max(1.0, abs(m)),
            "global level %r instead of the mean of the target %r" % (est.global_scale_, m),
        )
    rs = np.random.RandomState(case["seed2"])
    for X in (gen.frame(case), gen.pred_frame(case)):
        X = X.copy()
        bad = rs.uniform(size=len(X)) < 0.3
        values = [np.nan, np.inf, -np.inf]
        if mode not in gen.ADD:
            values += [0.0, -1.0, -1e-9]
        if mode in gen.LOGIT:
            values += [1.0, 1.5]
        X.loc[bad, "PRIOR"] = rs.choice(values, size=int(bad.sum()))
        p = gen.raw_predict(case, est, X)
        with np.errstate(all="ignore"):
            base = gen.link(mode, X["PRIOR"].values) + scale - link_level
        base = np.where(np.isfinite(base), base, scale)
        exp = gen.unlink(mode, base + total_link(case, est, X))
        if mode == "locpoisson":
            exp = np.where(exp > 0, exp, 0.0)
        d = stable.deviation(mode, p, exp, y)
        require(d <= 1e-8, "prediction %r, prior rescaled to the target level gives %r" % (p[:5], exp[:5]))
        ctx.label("invalid at prediction" if bad.any() else "valid")
    ctx.label(mode)
    ctx.mark(len(np.unique(prior[np.isfinite(prior)])) > 1)


def check_scale(case, ctx):
    """A common factor (or shift) of the prior column has no effect."""
    mode = case["mode"]
    prior = usable(case)
    k = case["k"]

    def moved(c):
        v = np.array([np.nan if x is None else x for x in c["prior"]], dtype=float)
        c = dict(c, prior=(v + k if mode in gen.ADD else v * k).tolist())
        return predict(c)

    a, b = moved(case), predict(case)
    if a is None or b is None:
        raise Discard("diverged")
    stable.require_same(case, "prior column moved by %r" % k, a, b, predict)
    ctx.label(mode)
    ctx.mark(len(np.unique(prior[np.isfinite(prior)])) > 1)


def check_constant(case, ctx):
    """A constant prior, or one without any valid entry, trains the same model as no prior."""
    mode = case["mode"]
    base = no_prior(case)
    v = 0.3 if mode in gen.LOGIT else case["k"]
    n = len(case["y"])
    rs = np.random.RandomState(case["seed2"])
    col = np.full(n, v)
    if case["invalid"] == "all":
        col[:] = np.nan
    elif case["invalid"] == "some":
        col[rs.uniform(size=n) < 0.4] = np.nan
    w = np.asarray(case["w"], dtype=float) if case["w"] is not None else np.ones(n)
    if case["invalid"] != "all" and not np.sum(w[np.isfinite(col)]) > 0:
        raise Discard("no prior with weight")

    def with_prior(c):
        return predict(dict(c, prior=col.tolist()))

    a, b = with_prior(base), predict(base)
    if a is None or b is None:
        raise Discard("diverged")
    stable.require_same(base, "constant prior (%s invalid) against none" % case["invalid"], a, b, predict)
    ctx.label(mode)
    ctx.label("invalid:" + case["invalid"])
    ctx.mark(len(np.unique(b)) > 1)


@st.composite
def cases(draw, modes, wide=True, **kw):
    case = draw(gen.problems(modes=modes, priors=(True,), wide_prior=draw(st.booleans()) if wide else False, **kw))
    case["seed2"] = draw(st.integers(0, 10**6))
    case["k"] = draw(st.sampled_from([0.01, 0.5, 3.0, 250.0]))
    case["invalid"] = draw(st.sampled_from(["no", "some", "all"]))
    return case


REG = ["poisson", "nbinom", "location", "locpoisson"]
SUBS = [
    Sub("base", lambda: cases(REG + ["classifier"]), check_base, 900),
    Sub("base_slow", lambda: cases(["mquantile", "aquantile"]), check_base, 120),
    Sub("scale", lambda: cases(REG), check_scale, 700),
    Sub("scale_slow", lambda: cases(["mquantile", "aquantile"]), check_scale, 80),
    Sub("constant", lambda: cases(REG + ["classifier"]), check_constant, 700),
    Sub("constant_slow", lambda: cases(["mquantile", "aquantile"]), check_constant, 80),
]
