"""C13: width estimation equals an independent execution of the likelihood search."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Sub
from checks import refcheck

PROPERTY = "C13"
RULE = refcheck.RULE


@st.composite
def widths(draw, **kw):
    case = draw(gen.problems(modes=["nbinomc"], kinds=("count", "count", "sparse", "spike", "const"), **kw))
    n = len(case["y"])
    rs = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    y = np.floor(np.asarray(case["y"]))
    mu = np.asarray(case["extra"]["MU"])
    how = draw(st.sampled_from(["given", "over", "tiny", "wild"]))
    if how == "over":  # overdispersed counts with a dispersion that depends on the first column
        g = np.array([0 if v is None or not v >= 0 else v for v in next(iter(case["cols"].values()))], dtype=float)
        c = 0.05 + 0.4 * (g % 3)
        y = rs.poisson(mu * rs.gamma(1 / c, c)).astype(float)
    elif how == "tiny":
        mu = np.where(rs.uniform(size=n) < 0.3, rs.choice([0.0, 1e-9, 1e-3], size=n), mu)
    elif how == "wild":
        mu = np.round(10.0 ** rs.uniform(-2, 3, size=n), 6)
    case["y"] = y.tolist()
    case["extra"] = {"MU": mu.tolist()}
    if draw(st.integers(0, 2)) == 0:
        pr = np.round(rs.uniform(0.02, 0.98, size=n), 6)
        k = draw(st.integers(0, 2))
        if k:
            bad = rs.uniform(size=n) < 0.2
            pr[bad] = rs.choice([gen.NAN, 0.0, 1.0, 1.5, -0.2], size=int(bad.sum()))
        case["prior"] = pr.tolist()
    if draw(st.booleans()):
        case["params"]["min_loss"] = case["params"]["min_factor"] = -1.0
    case["params"]["gamma"] = draw(st.sampled_from([0.0, 0.0, 0.1, 2.0]))
    case["params"]["n_steps"] = draw(st.sampled_from([15, 15, 7, 5, 4, 2, 1, 40]))
    case["row_keys"] = gen.row_keys(case)
    return case


def check(case, ctx):
    refcheck.check_against_reference(case, ctx)
    ctx.label("bayes" if case["params"]["bayes"] else "best step")


SUBS = [
    Sub("unsmoothed", lambda: widths(smoothers=("none",), max_iter=8), check, 500),
    Sub("smoothed", lambda: widths(smoothers=("default", "wmean", "groupby"), max_iter=6), check, 250),
    Sub("gaps", lambda: widths(smoothers=("none", "default"), gaps=True, max_bins=9), check, 150),
    Sub("larger", lambda: widths(smoothers=("default",), min_rows=150, max_rows=300, max_iter=10), check, 40),
    Sub("large", lambda: widths(smoothers=("none", "default"), converge=True, **dict(gen.LARGE, max_rows=600)), check, 24),
]
