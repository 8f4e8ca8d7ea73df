"""C41: the per-feature estimators of a trained model reproduce the contributions."""
import itertools

import numpy as np
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from cyclic_boosting.features import FeatureID

PROPERTY = "C41"
RULE = (
    "a case is a generated training problem; non-trivial = training converged and some group has contributions that "
    "differ between its bins"
)


def declared(case):
    out = [(tuple(g), None) for g in case["groups"]]
    if case["mode"] == "exponential":
        out += [(tuple(g), "external") for g in case["ext"]]
    return out


def key(group, kind):
    return " ".join(group) + ("" if kind is None else "_" + kind)


def fails(call, error):
    try:
        call()
    except error:
        return True
    return False


def check(case, ctx):
    mode = case["mode"]
    fresh = gen.build(case)
    require(fails(lambda: fresh.get_subestimators_as_items(prototypes=False), ValueError), "untrained model lists feature estimators")
    require(list(fresh.get_subestimators_as_items()) == [], "prototypes listed")
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    X, P = gen.frame(case), gen.pred_frame(case)
    want = declared(case)
    before = gen.raw_predict(case, est, P.copy())
    items = est.get_subestimators_as_items(prototypes=False)
    require(sorted((tuple(i.feature_group), str(i.feature_type)) for i, _ in items) == sorted((g, str(k)) for g, k in want),
            "feature estimators of %r, declared %r" % ([i for i, _ in items], want))
    if not case["params"].get("hier"):
        require([tuple(i.feature_group) for i, _ in items] == [g for g, _ in want], "order %r of %r" % ([i for i, _ in items], want))
    require(len(est.features) == len(want), "%d features instead of %d" % (len(est.features), len(want)))
    require(sorted(est.features.feature_groups) == sorted(g for g, _ in want), "groups %r" % (est.features.feature_groups,))
    require(list(est.features.feature_ids) == [i for i, _ in items], "ids %r" % (est.features.feature_ids,))
    require(fails(lambda: est.features["no such column"], KeyError), "unknown feature found")
    require(fails(lambda: est.features.get_feature(want[0][0], "no such type"), KeyError), "unknown feature type found")
    differ = False
    for (group, kind) in want:
        smoother = [s for i, s in items if i == FeatureID(group, kind)][0]
        found = est.features[FeatureID(group, kind)]
        require(found is est.features.get_feature(group, kind), "lookups of %r differ" % (group,))
        require(found.smoother is smoother and tuple(found.feature_group) == group and found.feature_type == kind, "lookup of %r" % (group,))
        require(found.dim == len(group) and found.is_1dim == (len(group) == 1), "dimension of %r" % (group,))
        if kind is None:
            require(est.features[group] is found, "lookup by name of %r" % (group,))
            if len(group) == 1:
                require(est.features[group[0]] is found, "lookup by column of %r" % (group,))
        V = X[list(group)].values.astype(float)
        ok = np.all(np.isfinite(V) & (V >= 0), axis=1)
        if not ok.any():
            require(smoother is None, "estimator for the never seen %r" % (group,))
            ctx.label("no bins")
            continue
        shape = V[ok].max(axis=0).astype(int) + 1
        require(found.n_bins_finite == np.prod(shape) and found.n_bins == np.prod(shape) + 1, "number of bins of %r" % (group,))
        grid = np.array(list(itertools.product(*[range(k) for k in shape])), dtype=float)
        require(np.array_equal(np.asarray(found.bin_centers, dtype=float).reshape(grid.shape), grid), "bin centres of %r" % (group,))
        got = np.asarray(smoother.predict(grid.copy()), dtype=float)
        Q = P.iloc[[0] * len(grid)].copy()
        for j, c in enumerate(group):
            Q[c] = grid[:, j]
        con = est.get_feature_contributions(Q)[key(group, kind)]
        exp = gen.link(mode, con)
        require(got.shape == exp.shape, "estimator of %r: %r, contributions %r" % (group, got, exp))
        # probabilities next to one have few digits left
        same = (np.abs(got - exp) <= 1e-9 * (1 + np.abs(exp))) | (np.abs(gen.unlink(mode, got) - con) <= 1e-12)
        require(np.all(same), "estimator of %r: %r, contributions %r" % (group, got, exp))
        fine = np.isfinite(exp)
        out = np.asarray(smoother.predict(grid[:1] + shape), dtype=float)
        require(np.isnan(out).all() or np.all(out == 0), "estimator of %r is %r beyond its bins" % (group, out))
        differ = differ or (fine.any() and np.ptp(exp[fine]) > 1e-6)
        ctx.label("%dd" % len(group))
    require(np.array_equal(gen.raw_predict(case, est, P.copy()), before), "inspecting changes the predictions")
    ctx.label(mode)
    ctx.mark(differ)


SUBS = [
    Sub("fast", lambda: gen.problems(modes=gen.FAST, max_cols=4, hier=True), check, 1200),
    Sub("slow", lambda: gen.problems(modes=gen.SLOW), check, 200),
    Sub("special", lambda: gen.problems(modes=["nbinomc", "exponential"]), check, 400),
    Sub("large", lambda: gen.problems(modes=gen.FAST, hier=True, **gen.LARGE), check, 48),
]
