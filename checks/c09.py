"""C09: missing, invalid and never-seen feature values."""
import numpy as np
from hypothesis import strategies as st

from cyclic_boosting import flags

from cbv import gen, stable
from cbv.core import Discard, Sub, require

PROPERTY = "C09"
RULE = (
    "a case is a training problem with missing values in training and/or prediction rows; non-trivial = training "
    "converged and a compared row or bin is missing or was never seen while others have an effect"
)
INVALID = [float("nan"), float("inf"), float("-inf"), -1.0, -3.0, -0.5]


def contributions(case, est, X):
    con = est.get_feature_contributions(X)
    return {k: np.asarray(v, dtype=float) for k, v in con.items()}


def neutral(mode):
    return float(gen.unlink(mode, 0.0))


def check_prediction(case, ctx):
    """Every representation of a missing value gives the same prediction and contributions."""
    mode = case["mode"]
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    P = gen.pred_frame(case)
    effect = False
    for c in case["used"]:
        base = None
        for v in INVALID:
            Q = P.copy()
            Q[c] = v
            got = gen.raw_predict(case, est, Q)
            con = contributions(case, est, Q)
            require(np.isfinite(got).all(), "prediction %r for %s=%r" % (got, c, v))
            if base is None:
                base = (got, con)
                continue
            require(
                gen.rel(got, base[0], 1e-300) <= 1e-12, "%s=%r predicts %r, NaN %r" % (c, v, got[:4], base[0][:4])
            )
            for k in con:
                require(
                    gen.rel(con[k], base[1][k], 1e-300) <= 1e-12,
                    "%s=%r contributes %r to %s, NaN %r" % (c, v, con[k][:4], k, base[1][k][:4]),
                )
        learned = not all(case["props"][c] & flags.MISSING_NOT_LEARNED == flags.MISSING_NOT_LEARNED for _ in [0])
        for g, ext in [(g, "") for g in case["groups"]] + [(g, "_external") for g in (case["ext"] or [])]:
            if c not in g:
                continue
            v = base[1][" ".join(g) + ext]
            if any(case["props"][x] & flags.MISSING_NOT_LEARNED == flags.MISSING_NOT_LEARNED for x in g):
                require(
                    np.all(v == neutral(mode)), "missing values of %s contribute %r although not to be learned" % (g, v[:4])
                )
                ctx.label("notlearned")
            elif learned and np.any(v != neutral(mode)):
                ctx.label("learned")
                effect = True
    Q = P.copy()
    for g, ext in [(g, "") for g in case["groups"]] + [(g, "_external") for g in (case["ext"] or [])]:
        for c in g:
            top = np.nanmax([-1.0] + [v for v in gen.frame(case)[c] if np.isfinite(v)])
            Q = P.copy()
            for o in g:
                if o != c:
                    Q[o] = 0.0
            Q[c] = top + 1 + np.arange(len(Q))
            if top < 0 or any(np.nanmax(gen.frame(case)[o].values) < 0 for o in g):
                continue
            v = contributions(case, est, Q)[" ".join(g) + ext]
            require(
                np.all(v == neutral(mode)), "never-seen bins %r of %s contribute %r" % (Q[c].values[:3], g, v[:3])
            )
    ctx.label(mode)
    ctx.mark(effect or len(np.unique(gen.raw_predict(case, est, gen.frame(case)))) > 1)


def check_training(case, ctx):
    """Every representation of a missing value in the training rows trains the same model."""
    base = gen.fit(case)
    if base is None:
        raise Discard("diverged")
    X = gen.frame(case)
    P = gen.pred_frame(case)
    rs = np.random.RandomState(case["seed2"])
    Y = X.copy()
    hit = 0
    for c in case["used"]:
        m = ~np.isfinite(X[c].values) | (X[c].values < 0)
        Y.loc[m, c] = rs.choice(INVALID, size=int(m.sum()))
        hit += int(m.sum())
    if not hit:
        raise Discard("no missing value")
    est = gen.fit(case, X=Y)
    require(est is not None, "training diverges with another representation of the missing values")
    for Z in (P, X):
        a, b = gen.raw_predict(case, est, Z), gen.raw_predict(case, base, Z)
        require(gen.rel(a, b, 1e-300) <= 1e-12, "other representation of missing values: %r instead of %r" % (a[:4], b[:4]))
    ctx.label(case["mode"])
    ctx.mark(len(np.unique(gen.raw_predict(case, base, X))) > 1)


def check_category(case, ctx):
    """Missing values are learned like one more category."""
    # the factor change is averaged over the bins, whose number differs: no early stop
    case = dict(case, params=dict(case["params"], min_loss=-1.0, min_factor=-1.0))
    X = gen.frame(case)
    P = gen.pred_frame(case)
    c = case["used"][0]
    miss = ~np.isfinite(X[c].values) | (X[c].values < 0)
    if not miss.any() or miss.all():
        raise Discard("nothing missing")
    top = X.loc[~miss, c].max()

    def variant(k):
        est = gen.fit(k)
        if est is None:
            return None
        Q = P.copy()
        Q[c] = np.where(np.arange(len(Q)) % 2 == 0, np.nan, np.nanmax(np.r_[0.0, top]))
        return gen.raw_predict(k, est, Q)

    def as_category(k):
        k = dict(k, cols=dict(k["cols"]))
        k["cols"][c] = np.where(miss, top + 1, X[c].values).tolist()
        est = gen.fit(k)
        if est is None:
            return None
        Q = P.copy()
        Q[c] = np.where(np.arange(len(Q)) % 2 == 0, top + 1, top)
        return gen.raw_predict(k, est, Q)

    a, b = variant(case), as_category(case)
    if a is None or b is None:
        raise Discard("diverged")
    stable.require_same(case, "missing values against a category of their own", a, b, as_category)
    ctx.label(case["mode"])
    ctx.mark(len(np.unique(b)) > 1)


def check_not_learned(case, ctx):
    """A feature group that is missing everywhere and not to be learned from changes nothing for the others."""
    n = len(case["y"])
    rs = np.random.RandomState(case["seed2"])
    case = dict(case, params=dict(case["params"], min_loss=-1.0, min_factor=-1.0))

    def plain(k):
        est = gen.fit(k)
        return None if est is None else gen.raw_predict(k, est, gen.pred_frame(k))

    def extended(k):
        k = dict(k, cols=dict(k["cols"]), pred=dict(k["pred"]), props=dict(k["props"]))
        v = np.full(n, np.nan)
        k["cols"]["zz"] = v.tolist()
        m = len(k["pred"][case["used"][0]])
        k["pred"]["zz"] = rs.choice([np.nan, -1.0], size=m).tolist()
        k["props"]["zz"] = int(flags.IS_UNORDERED | flags.MISSING_NOT_LEARNED)
        gs = list(k["groups"])
        gs.insert(case["seed2"] % (len(gs) + 1), ["zz"])
        if case["pair"]:
            gs.insert(case["seed2"] % (len(gs) + 1), ["zz", case["used"][0]])
        k["groups"] = gs
        k["row_keys"] = gen.row_keys(k)
        est = gen.fit(k)
        return None if est is None else gen.raw_predict(k, est, gen.pred_frame(k))

    a, b = extended(case), plain(case)
    if a is None or b is None:
        raise Discard("diverged")
    stable.require_same(case, "with a feature that is always missing", a, b, plain)
    ctx.label(case["mode"])
    ctx.mark(len(np.unique(b)) > 1)


def check_gaps(case, ctx):
    """Bins inside the range that training never saw contribute neutrally."""
    mode = case["mode"]
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    X = gen.frame(case)
    some = False
    P = gen.pred_frame(case)
    for g in case["groups"]:
        rows = X[g].values
        ok = np.all(np.isfinite(rows) & (rows >= 0), axis=1)
        if not ok.any():
            continue
        # zero-weight rows are not seen either, but nothing is promised for them here
        seen = {tuple(r) for r in rows[ok]}
        size = rows[ok].max(axis=0).astype(int) + 1
        cells = [t for t in np.ndindex(*size) if tuple(float(v) for v in t) not in seen][: len(P)]
        if not cells:
            continue
        some = True
        Q = P.iloc[: len(cells)].copy()
        for j, c in enumerate(g):
            Q[c] = [float(t[j]) for t in cells]
        v = contributions(case, est, Q)[" ".join(g)]
        require(np.all(v == neutral(mode)), "never-seen bins %r of %s contribute %r" % (cells[:3], g, v[:3]))
        ctx.label("%dd" % len(g))
    ctx.label(mode)
    ctx.mark(some)


def with_seed(strategy):
    @st.composite
    def f(draw):
        case = draw(strategy())
        case["seed2"] = draw(st.integers(0, 10**6))
        case["pair"] = draw(st.booleans())
        return case

    return f


def any_problem():
    return gen.problems(modes=gen.FAST * 3 + gen.SLOW + ["nbinomc"] * 2 + ["exponential"] * 2, missing=("miss", "notlearned", "no"))


def simple():
    return gen.problems(
        modes=gen.FAST * 2 + ["nbinomc"], smoothers=("none",), flag_sets=("unord",), missing=("miss", "miss", "no"),
        multidim=False, max_cols=2, max_iter=4,
    )


def fast():
    return gen.problems(modes=gen.FAST, missing=("miss", "notlearned", "no"))


def gappy():
    return gen.problems(
        modes=[m for m in gen.FAST if m not in ("location", "locpoisson")] + ["locpoisson", "nbinomc"] + gen.SLOW, gaps=True,
        smoothers=("default", "groupby"), flag_sets=("unord", "ord"), max_bins=8, max_rows=30,
    )


SUBS = [
    Sub("prediction", any_problem, check_prediction, 500),
    Sub("training", with_seed(any_problem), check_training, 500),
    Sub("category", with_seed(simple), check_category, 500),
    Sub("not_learned", with_seed(fast), check_not_learned, 500),
    Sub("gaps", gappy, check_gaps, 500),
]
