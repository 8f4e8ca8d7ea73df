"""C08: predictions are finite and inside the documented range."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require

PROPERTY = "C08"
RULE = (
    "a case is a training problem with ordinary or adversarial targets and adversarial rows to predict; non-trivial = "
    "training converged and the predictions of the adversarial rows are not all equal"
)
VALUES = [0.0, 1.0, 2.0, 0.5, 1.49, -1.0, -0.0, float("nan"), float("inf"), float("-inf"), 1e6, 1e18, -1e18, 7.0, 2**31]
AUX = [float("nan"), float("inf"), float("-inf"), 0.0, -1.0, 1e-300, 1e300, 1.0, 0.5, 2.0]


def check(case, ctx):
    mode = case["mode"]
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    rs = np.random.RandomState(case["seed2"])
    n = 40
    X = gen.frame(case)
    P = X.iloc[rs.randint(0, len(X), size=n)].reset_index(drop=True)
    for c in case["cols"]:
        P[c] = np.where(rs.uniform(size=n) < 0.7, rs.choice(VALUES, size=n), P[c].values)
    if case["prior"] is not None and mode in gen.PRIOR_MODES:
        # finite out-of-range priors and missing ones are documented to fall back to the global level
        P["PRIOR"] = np.where(
            rs.uniform(size=n) < 0.5, rs.choice([np.nan, np.inf, -np.inf, -1.0, 0.0] if mode not in gen.ADD else [np.nan, np.inf, -np.inf], size=n),
            P["PRIOR"].values,
        )
    if mode == "exponential":
        P["PR"] = np.where(rs.uniform(size=n) < 0.5, rs.choice([np.nan, np.inf, -np.inf, 1.0, 0.0], size=n), P["PR"].values)
    for Q, what in ((X, "training rows"), (P, "adversarial rows")):
        with np.errstate(all="ignore"):
            p = np.asarray(est.predict(Q), dtype=float)
        require(p.shape == (len(Q),), "%s: predictions of shape %r" % (what, p.shape))
        ok = np.isfinite(p)
        require(
            ok.all(),
            "%s: prediction %r for %r" % (what, p[~ok][:2], {c: Q[c].values[~ok][:2].tolist() for c in Q.columns}),
        )
        if mode in gen.MULT or mode == "locpoisson":
            require((p >= 0).all(), "%s: negative prediction %r" % (what, p.min()))
        if mode in gen.LOGIT and mode != "classifier":
            require(((p >= 0) & (p <= 1)).all(), "%s: prediction outside [0, 1]: %r, %r" % (what, p.min(), p.max()))
        if mode == "classifier":
            pr = np.asarray(est.predict_proba(Q), dtype=float)
            require(pr.shape == (len(Q), 2), "%s: probabilities of shape %r" % (what, pr.shape))
            require(np.isfinite(pr).all() and (pr >= 0).all() and (pr <= 1).all(), "%s: probabilities %r" % (what, pr[:3]))
            require(np.all(np.abs(pr.sum(axis=1) - 1) < 1e-12), "%s: probabilities sum to %r" % (what, pr.sum(axis=1)[:3]))
            sure = np.abs(pr[:, 1] - 0.5) > 1e-9
            require(
                np.array_equal(p[sure], (pr[:, 1] > 0.5).astype(float)[sure]) and np.isin(p, [0, 1]).all(),
                "%s: labels %r for probabilities %r" % (what, p[:4], pr[:4, 1]),
            )
    ctx.label(mode)
    ctx.label("target:" + case["kind"] + ("" if case["factor"] == 1 else "*%g" % case["factor"]))
    ctx.mark(len(np.unique(p)) > 1)


@st.composite
def cases(draw, modes, **kw):
    case = draw(gen.problems(modes=modes, kinds=("count", "sparse", "spike", "heavy", "zeros", "const", "real"), **kw))
    case["seed2"] = draw(st.integers(0, 10**6))
    case["factor"] = 1
    if case["mode"] not in ("classifier", "gclassifier", "nbinomc") and draw(st.integers(0, 3)) == 0:
        case["factor"] = draw(st.sampled_from([1e-9, 1e-4, 1e4, 1e8]))
        case["y"] = [v * case["factor"] for v in case["y"]]
    return case


SUBS = [
    Sub("fast", lambda: cases(gen.FAST, weights=("none", "real", "extreme", "int", "huge")), check, 1200),
    Sub("slow", lambda: cases(gen.SLOW), check, 250),
    Sub("special", lambda: cases(["nbinomc", "exponential"]), check, 300),
    Sub("large", lambda: cases(gen.FAST, weights=("none", "real", "extreme"), **gen.LARGE), check, 48),
]
