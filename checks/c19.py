"""C19: feature importances are the normalised mean effect of each feature group."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, Violation, require

PROPERTY = "C19"
RULE = (
    "a case is a generated training problem; non-trivial = training converged, at least two feature groups, and the "
    "importances are not all equal"
)


def names(case):
    out = [("_".join(g), " ".join(g)) for g in case["groups"]]
    if case["mode"] == "exponential":
        out += [("_".join(g) + "_external", " ".join(g) + "_external") for g in case["ext"]]
    return out


def verify(case, est, X, ctx):
    mode = case["mode"]
    imp = est.get_feature_importances()
    con = est.get_feature_contributions(X)
    keys = names(case)
    require(sorted(imp) == sorted(a for a, _ in keys), "importances for %r, groups %r" % (sorted(imp), keys))
    eff = {a: float(np.mean(np.abs(gen.link(mode, con[b])))) for a, b in keys}
    total = sum(eff.values())
    v = np.array([float(imp[a]) for a in eff])
    e = np.array(list(eff.values()))
    require(np.isfinite(v).all() and (v >= 0).all(), "importances %r" % (imp,))
    if total < 1e-5:
        ctx.label("no effect")
        return False
    require(abs(v.sum() - 1) < 1e-9, "importances sum to %r" % v.sum())
    require(
        np.all(np.abs(v - e / total) <= 1e-8 + 1e-12 / total),
        "importances %r instead of %r" % (imp, {a: eff[a] / total for a in eff}),
    )
    for a in eff:
        if eff[a] < 1e-14:
            require(imp[a] * total < 1e-12, "neutral group %s has importance %r" % (a, imp[a]))
            ctx.label("neutral group")
    again = est.get_feature_importances()
    require(again == imp, "second call reports %r after %r" % (again, imp))
    return len(v) > 1 and np.ptp(v) > 1e-6


def check(case, ctx):
    try:
        gen.build(case).get_feature_importances()
    except Exception:
        pass
    else:
        raise Violation("unfitted estimator reports importances")
    X = gen.frame(case)
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    nontrivial = verify(case, est, X, ctx)
    gen.raw_predict(case, est, gen.pred_frame(case))
    est.get_feature_contributions(gen.pred_frame(case))
    verify(case, est, X, ctx)
    if case["refit"] and case["mode"] not in ("nbinomc", "exponential"):
        # the last training counts, whatever was trained before
        order = np.random.RandomState(case["seed2"]).permutation(len(case["y"]))
        keep = order[: max(4, len(order) // 2)]
        other = dict(case, cols={c: [v[i] for i in keep] for c, v in case["cols"].items()}, y=[case["y"][i] for i in keep])
        for k in ("w", "prior"):
            if case[k] is not None:
                other[k] = [case[k][i] for i in keep]
        if gen.valid_problem(other, case):
            from cyclic_boosting.utils import ConvergenceError

            try:
                est.fit(gen.frame(other), gen.target(other))
            except ConvergenceError:
                raise Discard("diverged")
            verify(other, est, gen.frame(other), ctx)
            ctx.label("refit")
    ctx.label(case["mode"])
    ctx.mark(nontrivial)


@st.composite
def cases(draw, **kw):
    case = draw(gen.problems(**kw))
    case["refit"] = draw(st.booleans())
    case["seed2"] = draw(st.integers(0, 10**6))
    return case


SUBS = [
    Sub("fast", lambda: cases(modes=gen.FAST, max_cols=4), check, 1400),
    Sub("slow", lambda: cases(modes=gen.SLOW), check, 200),
    Sub("special", lambda: cases(modes=["nbinomc", "exponential"]), check, 400),
    Sub("large", lambda: cases(modes=gen.FAST, **gen.LARGE), check, 48),
]


def probe_names():
    """Two groups whose names read alike when joined by an underscore."""
    from cyclic_boosting import CBPoissonRegressor

    X = pd.DataFrame({"a": [0.0, 1, 0, 1, 2, 2], "b": [0.0, 0, 1, 1, 0, 1], "a_b": [1.0, 0, 2, 0, 1, 2]})
    est = CBPoissonRegressor(feature_groups=[("a", "b"), "a_b"], maximal_iterations=3)
    est.fit(X, np.array([1.0, 3, 2, 5, 4, 9]))
    require(len(est.get_feature_importances()) == 2, "the importances of two groups have the same name")


KNOWN_PROBES = {"joined-names": probe_names}
