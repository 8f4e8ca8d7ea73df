"""C12: additive and background-subtraction regression equal the documented algorithm."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from checks import refcheck

PROPERTY = "C12"
RULE = refcheck.RULE
MODES = ["location", "locpoisson", "gbs"]


def check_centred(case, ctx):
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    X, y = gen.frame(case), gen.target(case)
    w = np.asarray(case["w"]) if case["w"] is not None else np.ones(len(y))
    con = est.get_feature_contributions(X)
    scale = max(1e-9, float(np.max(np.abs(y))))
    for g in case["groups"]:
        c = np.asarray(con[" ".join(g)], dtype=float)
        rows = np.ones(len(y), dtype=bool)
        if any((case["props"][k] & 48) == 48 for k in g):
            # rows with missing values contribute exactly nothing
            v = X[g].values
            rows = np.all(np.isfinite(v) & (v >= 0), axis=1)
            require(np.all(c[~rows] == 0), "missing values of the not-learned group %r contribute %r" % (g, c[~rows][:4]))
        if not np.sum(w[rows]) > 0:
            continue
        m = np.sum(c[rows] * w[rows]) / np.sum(w[rows])
        require(abs(m) <= 1e-8 * scale, "mean contribution of %r is %r" % (g, m))
    ctx.mark(any(np.ptp(np.asarray(v)) > 0 for v in con.values()))


def check_shift(case, ctx):
    y = gen.target(case)
    d = case["shift"] * max(1.0, float(np.std(y)))
    a = gen.fit(case)
    b = gen.fit(case, y=y + d)
    if a is None or b is None:
        raise Discard("diverged")
    P = gen.pred_frame(case)
    pa, pb = a.predict(P), b.predict(P)
    scale = max(float(np.max(np.abs(y))), abs(d), 1e-9)
    if not np.max(np.abs(pb - d - pa)) <= 1e-7 * scale:
        for k in range(6):
            rs = np.random.RandomState(k)
            o = gen.fit(case, y=y * (1 + 1e-12 * rs.uniform(-1, 1, size=len(y))))
            if o is None or np.max(np.abs(o.predict(P) - pa)) > 1e-9 * scale or a.iteration_ != b.iteration_:
                raise Discard("ill-conditioned")
        require(False, "target shifted by %r: predictions %r, before %r" % (d, pb[:5], pa[:5]))
    ctx.mark(len(np.unique(pa)) > 1)


@st.composite
def shifts(draw):
    case = draw(gen.problems(modes=["location"], priors=(False,), converge=True, kinds=("count",)))
    case["shift"] = draw(st.sampled_from([-100.0, -3.0, 0.37, 10.0, 250.0]))
    return case


SUBS = [
    Sub(
        "large",
        lambda: gen.problems(modes=MODES, smoothers=("none", "none", "default"), hier=True, converge=True, **gen.LARGE),
        refcheck.check_against_reference,
        48,
    ),
    Sub(
        "unsmoothed",
        lambda: gen.problems(modes=MODES, smoothers=("none",), max_iter=10, hier=True),
        refcheck.check_against_reference,
        1000,
    ),
    Sub(
        "smoothed",
        lambda: gen.problems(modes=MODES, smoothers=("default", "wmean", "groupby"), max_iter=8, hier=True),
        refcheck.check_against_reference,
        500,
    ),
    Sub(
        "gaps",
        lambda: gen.problems(modes=MODES, smoothers=("none", "default"), gaps=True, max_bins=9),
        refcheck.check_against_reference,
        300,
    ),
    Sub("centred", lambda: gen.problems(modes=["location"]), check_centred, 300),
    Sub("shift", shifts, check_shift, 300),
]
