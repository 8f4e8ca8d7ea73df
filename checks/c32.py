"""C32: hierarchical feature groups are learned first and kept."""
import numpy as np
from hypothesis import strategies as st

from cyclic_boosting.utils import ConvergenceError

from cbv import gen, stable
from cbv.core import Discard, Sub, require
from checks import refcheck
from checks.c17 import Recorder, Rate

PROPERTY = "C32"
RULE = (
    "a case is a training problem with some feature groups declared hierarchical; non-trivial = training converged, "
    "at least one group is not hierarchical and the first three iterations change the predictions"
)


def train(case, groups, hier, mx):
    c = dict(case, groups=groups, params=dict(case["params"], hier=hier, max_iter=mx, min_loss=-1.0, min_factor=-1.0))
    rec = Recorder()
    rate = Rate("one")
    est = gen.build(c, observers=[rec], learn_rate=rate if not hier else None)
    try:
        est.fit(gen.frame(c), gen.target(c))
    except ConvergenceError:
        return None, rec
    return est, rec


def check(case, ctx):
    mode = case["mode"]
    hier = case["params"]["hier"]
    mx = case["params"]["max_iter"]
    groups = case["groups"]
    est, rec = train(case, groups, hier, mx)
    first = [g for g in groups if g in hier]
    only, rec3 = train(case, first, None, 3)
    if est is None or only is None:
        raise Discard("diverged")
    for r in (rec, rec3):
        if any(s[2] > 1.99 * r.seen[0][2] for s in r.seen):
            raise Discard("diverging")
    n = max(mx, 4)
    require([s[0] for s in rec.seen] == list(range(n)) + [-1], "iterations %r with limit %d" % ([s[0] for s in rec.seen], mx))
    # which features are trained in which iteration
    expect = []
    for it in range(n):
        for k, g in enumerate(groups):
            if it >= 3 or g in hier:
                expect.append((it, k))
    require(rec.inner == expect, "features trained %r instead of %r" % (rec.inner, expect))
    for it in range(4):
        a = rec.seen[it][1]
        b = rec3.seen[it][1]

        def again(k, it=it):
            e, r = train(k, first, None, 3)
            return None if e is None else r.seen[it][1]

        stable.require_same(case, "prediction after %d iterations against the hierarchical groups alone" % it, a, b, again)
    # all groups contribute to the final model
    X = gen.frame(case)
    con = est.get_feature_contributions(X)
    require(sorted(con) == sorted(" ".join(g) for g in groups), "contributions of %r" % (sorted(con),))
    total = sum(gen.link(mode, con[" ".join(g)]) for g in groups)
    final = rec.seen[-1][1]
    pred = gen.raw_predict(case, est, X)
    if mode == "locpoisson":
        final = np.where(final > 0, final, 0)
    scale = max(1e-3, np.abs(gen.target(case)).max()) if mode in gen.ADD else 1e-300
    require(gen.rel(pred, final, scale) <= 1e-8, "model predicts %r, training ended with %r" % (pred[:4], final[:4]))
    late = [g for g in groups if g not in hier]
    moved = bool(late) and np.ptp(rec3.seen[3][1]) > 0
    if moved and any(np.any(gen.link(mode, con[" ".join(g)]) != 0) for g in late):
        ctx.label("late groups learned")
    if np.any(total != 0):
        ctx.label("effect")
    ctx.label(mode)
    ctx.mark(moved)


def check_final(case, ctx):
    """Continuing after the hierarchical phase: a training of all groups that starts from its result."""
    refcheck.check_against_reference(case, ctx)


@st.composite
def cases(draw, modes, **kw):
    case = draw(gen.problems(modes=modes, hier=True, learn_rates=(None,), **kw).filter(lambda c: c["params"].get("hier") and len(c["groups"]) > 1))
    return case


SUBS = [
    Sub("phases", lambda: cases(gen.FAST, max_iter=7), check, 700),
    Sub("phases_slow", lambda: cases(gen.SLOW), check, 80),
    Sub("reference", lambda: cases(["poisson", "nbinom", "classifier", "gbs", "location"], max_iter=8, smoothers=("default", "none")), check_final, 400),
]
