"""C38: probability transforms of observed counts."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from cyclic_boosting.quantile_matching import J_QPD_B, J_QPD_S
from cyclic_boosting.utils import smear_discrete_cdftruth, smear_discrete_cdftruth_qpd

from cbv.core import Sub, require

PROPERTY = "C38"
RULE = (
    "a case is a discrete distribution (or an array of quantile-parameterised ones) with observed counts and a random "
    "seed; non-trivial = at least two different observations"
)


def dist(case):
    a, b = case["par"]
    if case["dist"] == "poisson":
        return stats.poisson(a)
    if case["dist"] == "nbinom":
        return stats.nbinom(a, 1 / (1 + b))
    if case["dist"] == "binom":
        return stats.binom(int(5 + 10 * b), min(0.95, a / 30))
    pr = np.array(case["table"], dtype=float)
    pr = pr / pr.sum()
    return stats.rv_discrete(values=(np.arange(len(pr)), pr))


def uniform(v, what):
    """Kolmogorov-Smirnov test; chance of a false alarm per call below 1e-12."""
    p = stats.kstest(v, "uniform").pvalue
    require(p > 1e-12, what + ": not uniform (p = %g), deciles %r" % (p, np.quantile(v, np.linspace(0, 1, 11))))


def check_single(case, ctx):
    d = dist(case)
    np.random.seed(case["seed"])
    for y in case["y"]:
        hi = float(d.cdf(y))
        lo = float(d.cdf(y - 1)) if y >= 1 else 0.0
        for _ in range(20):
            v = float(smear_discrete_cdftruth(d.cdf, y))
            require(lo - 1e-12 <= v <= hi + 1e-12, "count %d: %r outside %r..%r" % (y, v, lo, hi))
    # within one observation the values fill the interval evenly
    y = case["y"][0]
    hi, lo = float(d.cdf(y)), float(d.cdf(y - 1)) if y >= 1 else 0.0
    if hi - lo > 1e-6:
        v = np.array([float(smear_discrete_cdftruth(d.cdf, y)) for _ in range(300)])
        uniform((v - lo) / (hi - lo), "count %d" % y)
    ctx.label(case["dist"])
    ctx.mark(len(set(case["y"])) > 1)


def check_uniform(case, ctx):
    d = dist(case)
    np.random.seed(case["seed"])
    y = d.rvs(size=1500, random_state=np.random.RandomState(case["seed"] + 1))
    # a plain table keeps the evaluation of the distribution function cheap
    top = int(y.max()) + 1
    table = d.cdf(np.arange(-1, top + 1))
    v = np.array([smear_discrete_cdftruth(lambda k: table[int(k) + 1], int(k)) for k in y], dtype=float)
    uniform(v, case["dist"])
    ctx.label("uniform_" + case["dist"])
    ctx.mark(len(np.unique(y)) > 1)


def qpds(case):
    low, med, high = (np.array([t[i] for t in case["triplets"]]) for i in range(3))
    if case["bounded"]:
        return J_QPD_B(0.2, low, med, high, case["l"], 200.0)
    return J_QPD_S(0.2, low, med, high, case["l"])


def check_qpd(case, ctx):
    d = qpds(case)
    y = np.array(case["y"])
    y0 = y.copy()
    np.random.seed(case["seed"])
    with np.errstate(all="ignore"):
        hi = np.asarray(d.cdf(y, inner=True), dtype=float)
        lo = np.where(y >= 1, d.cdf(np.maximum(y - 1, 0), inner=True), 0.0)
        vs = np.stack([np.asarray(smear_discrete_cdftruth_qpd(d, y), dtype=float) for _ in range(200)])
    require(vs.shape == (200, len(y)), "shape %r" % (vs.shape[1:],))
    require(np.array_equal(y, y0), "observations changed")
    bad = (vs < lo - 1e-12) | (vs > hi + 1e-12)
    require(not bad.any(), "counts %r: values outside %r..%r" % (y, lo, hi))
    wide = np.flatnonzero(hi - lo > 1e-6)
    for i in wide:
        uniform((vs[:, i] - lo[i]) / (hi[i] - lo[i]), "observation %d" % y[i])
    if len(wide) >= 2:
        r = (vs[:, wide] - lo[wide]) / (hi[wide] - lo[wide])
        for j in range(len(wide) - 1):
            rho = stats.spearmanr(r[:, j], r[:, j + 1]).statistic
            # 200 independent pairs: a correlation of 0.6 has probability below 1e-16
            require(abs(rho) < 0.6, "observations are not smeared independently (correlation %r)" % rho)
    ctx.label("bounded" if case["bounded"] else "semibounded")
    ctx.mark(len(wide) > 1)


@st.composite
def singles(draw):
    return dict(
        dist=draw(st.sampled_from(["poisson", "nbinom", "binom", "table"])),
        par=[draw(st.floats(0.2, 25)), draw(st.floats(0.1, 4))],
        table=[draw(st.floats(0.01, 1)) for _ in range(draw(st.integers(2, 6)))],
        y=draw(st.lists(st.integers(0, 15), min_size=1, max_size=6)), seed=draw(st.integers(0, 2**31)),
    )


@st.composite
def arrays(draw):
    trip, y = [], []
    for _ in range(draw(st.integers(2, 8))):
        m = draw(st.floats(0.3, 40))
        trip.append([m * draw(st.floats(0.2, 0.9)), m, m * draw(st.floats(1.1, 4))])
        y.append(draw(st.one_of(st.just(0), st.just(1), st.integers(0, 60))))
    return dict(triplets=trip, y=y, bounded=draw(st.booleans()), l=draw(st.sampled_from([0.0, -0.5, -3.0])), seed=draw(st.integers(0, 2**31)))


SUBS = [
    Sub("single", singles, check_single, 300),
    Sub("uniform", singles, check_uniform, 300),
    Sub("qpd", arrays, check_qpd, 400),
]
