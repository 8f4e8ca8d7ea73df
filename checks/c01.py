"""C01: predictions decompose into the reported contributions."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require

PROPERTY = "C01"
RULE = (
    "a case is a generated training problem (any estimator, 1-D/multi-D/missing features, weights, priors) plus rows "
    "to predict; non-trivial = training converged and at least one row has two or more non-neutral contributions "
    "or one non-neutral contribution of a single-feature model"
)
TOL = 1e-9


def key_of(group, external=False):
    return " ".join(group) + ("_external" if external else "")


def check_identity(case, ctx):
    mode = case["mode"]
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    any_effect = False
    for X in (gen.frame(case), gen.pred_frame(case)):
        n = len(X)
        pred = gen.raw_predict(case, est, X)
        contrib = est.get_feature_contributions(X)
        std = [key_of(g) for g in case["groups"]]
        ext = [key_of(g, True) for g in (case["ext"] or [])] if mode == "exponential" else []
        require(
            sorted(contrib) == sorted(std + ext),
            "contributions reported for %r, expected %r" % (sorted(contrib), sorted(std + ext)),
        )
        for k, v in contrib.items():
            require(np.shape(v) == (n,), "contribution of %s has shape %s for %d rows" % (k, np.shape(v), n))
            require(np.isfinite(np.asarray(v)).all(), "contribution of %s is not finite" % k)
        total = np.zeros(n)
        moved = np.zeros(n, dtype=int)
        for k in std:
            c = gen.link(mode, contrib[k])
            total += c
            moved += np.abs(c) > 1e-12
        any_effect = any_effect or bool((moved >= min(2, len(std))).any())
        scale_link = float(gen.link(mode, np.float64(est.global_scale_)))
        if case["prior"] is not None and mode in gen.PRIOR_MODES:
            prior = X["PRIOR"].values
            lp = gen.link(mode, prior)
            offset = base_offset(case, scale_link)
            base = np.where(np.isfinite(lp), lp + offset, scale_link)
        elif mode == "nbinomc":
            base = np.zeros(n)
        else:
            base = np.full(n, scale_link)
        link_pred = base + total
        if mode == "exponential":
            pr = X["PR"].values - 1.0
            pr = np.where(np.isfinite(pr), pr, 0.0)
            pexp = X["PEXP"].values if "PEXP" in X else -1.0
            e = np.zeros(n)
            for k in ext:
                e += gen.link(mode, contrib[k])
            link_pred = link_pred + pexp * np.exp(e) * pr
        expected = gen.unlink(mode, link_pred)
        if mode == "locpoisson":
            expected = np.where(expected > 0, expected, 0)
        # additive models: cancellation between base and contributions is
        # judged relative to the largest term
        scale = np.maximum(1.0, np.abs(base)) if mode in gen.ADD else 1.0
        dev = np.abs(pred - expected) / np.maximum(np.abs(expected), scale if mode in gen.ADD else 1e-300)
        if mode in gen.LOGIT:
            dev = np.abs(pred - expected)
        dev = np.where(pred == expected, 0.0, dev)
        require(
            bool((dev <= TOL).all()),
            "prediction %r differs from the combination of base and contributions %r"
            % (pred[int(np.argmax(dev))], np.asarray(expected)[int(np.argmax(dev))]),
        )
    ctx.label(mode)
    ctx.mark(any_effect)


def base_offset(case, scale_link):
    """Global constant that lifts the prior to the level of the target."""
    w = np.ones(len(case["y"])) if case["w"] is None else np.asarray(case["w"])
    prior = np.array([gen.NAN if v is None else v for v in case["prior"]], dtype=float)
    fin = np.isfinite(prior)
    m = np.sum(prior[fin] * w[fin]) / np.sum(w[fin])
    lm = gen.link(case["mode"], m)
    return scale_link - lm if np.isfinite(lm) else scale_link


def check_same_values(case, ctx):
    """Contributions depend on the values of the own columns only."""
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    X = gen.pred_frame(case)
    X = X.iloc[np.r_[np.arange(len(X)), np.arange(len(X))]].reset_index(drop=True)
    base = est.get_feature_contributions(X)
    rs = np.random.RandomState(case["seed2"])
    groups = [(g, False) for g in case["groups"]] + [(g, True) for g in (case["ext"] or [])]
    informative = False
    for g, external in groups:
        if external and case["mode"] != "exponential":
            continue
        k = key_of(g, external)
        X2 = X.copy()
        for c in case["cols"]:
            if c not in g:
                X2[c] = X[c].values[rs.permutation(len(X))]
        for c in X2.columns:
            if c not in case["cols"]:
                X2[c] = X[c].values[rs.permutation(len(X))]
        other = est.get_feature_contributions(X2)
        require(
            np.array_equal(np.asarray(base[k]), np.asarray(other[k])),
            "contribution of %s changes when only other columns change" % k,
        )
        informative = informative or len(set(np.asarray(base[k]).tolist())) > 1
        table = {}
        for i, vals in enumerate(X[g].values.tolist()):
            vals = tuple("miss" if (v != v or v < 0 or v in (np.inf, -np.inf)) else v for v in vals)
            if "miss" in vals:
                vals = "miss"
            v = table.setdefault(vals, base[k][i])
            require(v == base[k][i], "rows with equal values of %s have different contributions" % k)
    ctx.label(case["mode"])
    ctx.mark(informative)


def check_categories(case, ctx):
    mode = case["mode"]
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    rs = np.random.RandomState(case["seed2"])
    X = gen.pred_frame(case)
    cats = ["cat%d" % i for i in range(3)]
    assign, ic = {}, {}
    for g in case["groups"]:
        cat = cats[rs.randint(3)]
        assign[tuple(g)] = cat
        ic[g[0] if len(g) == 1 and rs.randint(2) else tuple(g)] = cat
    res = est.predict_extended(X, ic)
    plain = est.predict_extended(X, None)
    contrib = est.get_feature_contributions(X)
    df = res.df
    require(
        gen.rel(np.asarray(res.predict_link()), np.asarray(plain.predict_link()), 1e-300) <= 1e-12,
        "asking for influence categories changes the prediction",
    )
    for cat in cats:
        members = [g for g in case["groups"] if assign[tuple(g)] == cat]
        if not members:
            require(cat not in df.columns, "unused category %s is reported" % cat)
            continue
        s = np.zeros(len(X))
        for g in members:
            s = s + gen.link(mode, contrib[key_of(g)])
        require(
            bool(np.all(np.abs(df[cat].values - s) <= 1e-9 * np.maximum(1.0, np.abs(s)))),
            "category %s does not report the sum of its members' contributions" % cat,
        )
    ctx.label(mode)
    ctx.mark(len(case["groups"]) > 1 and len(set(assign.values())) > 1)


def with_seed2(strategy):
    return st.tuples(strategy, st.integers(0, 2**31 - 1)).map(lambda t: dict(t[0], seed2=t[1]))


SUBS = [
    Sub("identity_fast", lambda: gen.problems(modes=gen.FAST, weights=("none", "int", "real", "huge")), check_identity, 1400),
    Sub("identity_slow", lambda: gen.problems(modes=gen.SLOW), check_identity, 240),
    Sub("identity_special", lambda: gen.problems(modes=["nbinomc", "exponential"]), check_identity, 400),
    Sub("identity_large", lambda: gen.problems(modes=gen.ALL, **gen.LARGE), check_identity, 48),
    Sub("own_columns", lambda: with_seed2(gen.problems(modes=gen.FAST * 2 + ["mquantile", "nbinomc", "exponential"])), check_same_values, 480),
    Sub("categories", lambda: with_seed2(gen.problems(modes=gen.FAST + ["exponential", "nbinomc"], max_cols=4)), check_categories, 320),
]


def probe_names():
    """Two groups whose names read alike when joined by a blank."""
    from cyclic_boosting import CBPoissonRegressor

    X = pd.DataFrame({"a": [0.0, 1, 0, 1, 2, 2], "b": [0.0, 0, 1, 1, 0, 1], "a b": [1.0, 0, 2, 0, 1, 2]})
    est = CBPoissonRegressor(feature_groups=[("a", "b"), "a b"], maximal_iterations=3)
    est.fit(X, np.array([1.0, 3, 2, 5, 4, 9]))
    require(len(est.get_feature_contributions(X)) == 2, "the contributions of two groups have the same name")


KNOWN_PROBES = {"joined-names": probe_names}
