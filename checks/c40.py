"""C40: the reported required columns are the ones that training uses."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, Violation, require
from checks.c06 import same, summary
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C40"
RULE = (
    "a case is a training problem with unrelated extra columns; non-trivial = training converged, there are unrelated "
    "columns and at least two required ones"
)


def check(case, ctx):
    X, y, P = gen.frame(case), gen.target(case), gen.pred_frame(case)
    rs = np.random.RandomState(case["seed2"])
    for k in range(case["more"]):
        X.insert(int(rs.randint(X.shape[1] + 1)), "more%d" % k, rs.choice([0.0, 1.0, 5.0, np.nan], size=len(X)))
    est = gen.build(case)
    early = est.required_columns()
    try:
        est.fit(X.copy(), y.copy())
    except ConvergenceError:
        raise Discard("diverged")
    need = set(est.required_columns())
    require(set(early) == need, "before training %r are required, afterwards %r" % (sorted(early), sorted(need)))
    require(need <= set(X.columns), "required columns %r, the data has %r" % (sorted(need), list(X.columns)))
    want = summary(case, est, P)
    # changing the returned set has no consequences
    est.required_columns().add("something")
    require(set(est.required_columns()) == need, "the returned set is shared with the model")
    # the required columns are enough ...
    m = gen.build(case)
    try:
        m.fit(X[[c for c in X.columns if c in need]].copy(), y.copy())
    except Exception as e:  # noqa: B902
        raise Violation("training on the required columns %r fails: %r" % (sorted(need), e))
    same(summary(case, m, P), want, "training on the required columns only")
    # ... and each of them is needed
    for c in sorted(need):
        m = gen.build(case)
        try:
            m.fit(X.drop(columns=c), y.copy())
        except ConvergenceError:
            raise Discard("diverged")
        except Exception:  # noqa: B902
            continue
        require(False, "training works without the required column %s" % c)
    ctx.label(case["mode"])
    ctx.mark(len(need) > 1 and len(need) < X.shape[1])


def strat(modes, **kw):
    return st.tuples(gen.problems(modes=modes, pred_rows=6, **kw), st.integers(0, 2**31 - 1), st.integers(0, 3)).map(
        lambda t: dict(t[0], seed2=t[1], more=t[2])
    )


@st.composite
def specials(draw):
    case = draw(strat(["nbinomc", "exponential", "exponential"], max_rows=40, max_iter=4))
    if draw(st.booleans()):
        rs = np.random.RandomState(case["seed2"])
        case["prior"] = np.round(rs.gamma(2.0, 1.0, size=len(case["y"])) + 0.05, 5).tolist()
    return case


SUBS = [
    Sub("fast", lambda: strat(gen.FAST, hier=True, max_rows=40, max_iter=4), check, 400),
    Sub("special", specials, check, 240),
    Sub("slow", lambda: strat(gen.SLOW, max_rows=30, max_iter=2), check, 50),
]
