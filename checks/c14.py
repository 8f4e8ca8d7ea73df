"""C14: the price model is base demand times the learned elasticity term."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from checks import refcheck
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C14"
RULE = refcheck.RULE + "; for the identity checks: some external contribution differs from one"


@st.composite
def prices(draw, **kw):
    case = draw(gen.problems(modes=["exponential"], kinds=("count", "count", "real", "sparse"), **kw))
    n = len(case["y"])
    rs = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    pr = np.array([gen.NAN if v is None else v for v in case["extra"]["PR"]], dtype=float)
    k = draw(st.integers(0, 3))
    if k == 0:  # few price points, many rows without reduction
        pr = rs.choice([1.0, 1.0, 0.8, 0.5], size=n)
    elif k == 1:
        pr = np.round(rs.uniform(0.05, 3.0, size=n), 4)
        if draw(st.integers(0, 3)) == 0:
            pr[rs.uniform(size=n) < 0.2] = 0.0
    if draw(st.integers(0, 2)) == 0:
        pr[rs.uniform(size=n) < 0.2] = rs.choice([gen.NAN, np.inf])
    case["extra"]["PR"] = pr.tolist()
    if draw(st.booleans()):
        # demand that follows the prices
        el = rs.uniform(0.5, 4.0)
        base = np.asarray(case["y"]) + 1
        case["y"] = rs.poisson(np.clip(base * np.exp(-el * np.where(np.isfinite(pr), pr - 1, 0)), 0, 1e4)).astype(float).tolist()
    case["params"]["var_prior_exponent"] = draw(st.sampled_from([0.1, 0.1, 0.01, 1.0, 10.0]))
    if draw(st.integers(0, 4)) == 0:
        case["prior"] = np.round(rs.gamma(2.0, 1.0, size=n) + 0.01, 6).tolist()
    case["row_keys"] = gen.row_keys(case)
    return case


def check_reference(case, ctx):
    refcheck.check_against_reference(case, ctx)


def check_identity(case, ctx):
    est = gen.build(case)
    try:
        est.fit(gen.frame(case), gen.target(case))
    except ConvergenceError:
        raise Discard("diverged")
    P = gen.pred_frame(case)
    n = len(P)
    pr = np.array([gen.NAN if v is None else v for v in case["newprice"]], dtype=float)
    P["PR"] = pr[np.arange(n) % len(pr)]
    pred = np.asarray(est.predict(P))
    con = est.get_feature_contributions(P)
    ext = [" ".join(g) + "_external" for g in case["ext"]]
    std = [" ".join(g) for g in case["groups"]]
    require(set(con) == set(ext + std), "contributions of %r, expected %r" % (sorted(con), sorted(ext + std)))
    k = P["PEXP"].values.copy() if "PEXP" in P else np.full(n, -1.0)
    for g in ext:
        k = k * con[g]
    x = np.where(np.isfinite(P["PR"]), P["PR"] - 1, 0.0)
    one = P.copy()
    one["PR"] = 1.0
    base = np.asarray(est.predict(one))
    exp = base * np.exp(k * x)
    require(gen.rel(pred, exp, 1e-300) < 1e-9, "prediction %r, base demand times elasticity %r" % (pred[:5], exp[:5]))
    # base demand: global scale or prior times the standard contributions only
    ref = base.copy()
    for g in std:
        ref = ref / con[g]
    if case.get("prior") is None:
        require(gen.rel(ref, np.full(n, est.global_scale_), 1e-300) < 1e-9, "base demand %r, global scale %r" % (ref[:5], est.global_scale_))
    else:
        q = ref / P["PRIOR"].values
        require(gen.rel(q, np.full(n, q[0]), 1e-300) < 1e-9, "base demand is not proportional to the prior prediction")
    # columns used by external groups only do not matter without a price change
    only = sorted({c for g in case["ext"] for c in g} - {c for g in case["groups"] for c in g})
    if only:
        other = one.copy()
        for c in only:
            other[c] = np.roll(other[c].values, 1)
        if "PEXP" in other:
            other["PEXP"] = other["PEXP"] - 1.0
        require(gen.rel(est.predict(other), base, 1e-300) < 1e-12, "external features act at external value one")
        ctx.label("external only")
    e = np.concatenate([con[g] for g in ext])
    ctx.mark(bool(np.any(np.abs(e - 1) > 1e-6) and np.any(x != 0)))
    ctx.label("prior exponents" if "PEXP" in P else "default exponent")
    if not np.isfinite(P["PR"]).all():
        ctx.label("missing external value")


@st.composite
def identity_cases(draw):
    case = draw(prices(max_iter=5, gaps=True))
    rs = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    case["newprice"] = np.where(
        rs.uniform(size=12) < 0.3, rs.choice([1.0, gen.NAN, np.inf, 0.0, -0.5], size=12), np.round(rs.uniform(0.01, 4, size=12), 5)
    ).tolist()
    if len(case["groups"]) > 1 and draw(st.booleans()):
        g = case["groups"].pop()
        if g not in case["ext"]:
            case["ext"].append(g)
    return case


SUBS = [
    Sub("unsmoothed", lambda: prices(smoothers=("none",), max_iter=8), check_reference, 450),
    Sub("smoothed", lambda: prices(smoothers=("default", "wmean", "groupby"), max_iter=6), check_reference, 200),
    Sub("gaps", lambda: prices(smoothers=("none", "default"), gaps=True, max_bins=8), check_reference, 120),
    Sub("large", lambda: prices(smoothers=("none", "default"), converge=True, **gen.LARGE), check_reference, 32),
    Sub("identity", identity_cases, check_identity, 200),
]
