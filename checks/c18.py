"""C18: observers are passive and report the true training state."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from checks import c17
from cyclic_boosting.observers import BaseObserver, PlottingObserver
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C18"
RULE = (
    "a case is a training problem trained without and with several observers; non-trivial = at least two iterations, "
    "and the predictions are not all equal"
)


class Full(c17.Recorder):
    """Remembers everything an observer is told."""

    def __init__(self):
        c17.Recorder.__init__(self)
        self.factors = {}
        self.data = []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        c17.Recorder.observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta, quantile)
        self.data.append((X, np.array(y), quantile))
        fs = []
        for f in estimator_state["features"]:
            v = getattr(f, "factors_link", None)
            fs.append((tuple(f.feature_group), f.feature_type, None if v is None else np.array(v)))
        self.factors[iteration] = fs


class Quiet(BaseObserver):
    """Relies on the inherited callbacks."""


def fit(case, observers):
    est = gen.build(case, observers=observers)
    try:
        est.fit(gen.frame(case), gen.target(case))
    except ConvergenceError:
        raise Discard("diverged")
    return est


def same(a, b, what, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    ok = a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b))
    if ok:
        with np.errstate(all="ignore"):
            d = np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b))
        ok = bool(np.all(d | np.isnan(a) | (a == b)))
    require(ok, "%s: %r instead of %r" % (what, a[:8], b[:8]))


def weighted_quantile_ok(v, y, w, q):
    o = np.argsort(y, kind="stable")
    y, cum = y[o], np.cumsum(w[o])
    total = cum[-1]
    if not np.any(y == v):
        return False
    upto = cum[np.searchsorted(y, v, side="right") - 1]
    k = np.searchsorted(y, v, side="left")
    below = cum[k - 1] if k > 0 else 0.0
    return upto >= total * q * (1 - 1e-9) and (below < total * q * (1 + 1e-9) or k == 0 or total == 0)


def check_histogram(case, h, pred, y, w):
    means, centers, errors, counts = h
    edges = np.linspace(pred.min(), pred.max(), 101)
    b = np.searchsorted(edges, pred, side="right")
    b = np.minimum(b, 100)
    mid = 0.5 * (edges[1:] + edges[:-1])
    quantile = case["params"].get("quantile") if case["mode"] in ("mquantile", "aquantile") else None
    used = sorted(set(b.tolist()))
    even = len(np.unique(w)) == 1
    shown = used if quantile is not None else [k for k in used if w[b == k].sum() > 0]
    require(list(means.index) == shown and list(counts.index) == shown, "histogram bins %r instead of %r" % (list(means.index), shown))
    for k in shown:
        r = b == k
        if quantile is not None:
            require(weighted_quantile_ok(means[k], y[r], w[r], quantile), "histogram quantile %r of %r" % (means[k], y[r]))
        else:
            same([means[k]], [np.sum(y[r] * w[r]) / np.sum(w[r])], "histogram mean")
        n = r.sum() if even else w[r].sum()
        same([counts[k]], [n], "histogram count")
    same(centers, mid[np.array(shown, dtype=int) - 1], "histogram positions")
    if errors is not None:
        for e, lower in zip(errors, (True, False, True, False)):
            v = np.asarray(e, dtype=float)
            require(np.all(v <= 1e-9 * np.abs(y).max()) if lower else np.all(v >= -1e-9 * np.abs(y).max()), "histogram errors %r" % (v,))


def check_feature_table(case, f, pred, y, w):
    """Bin-wise truth and prediction kept for the plots."""
    need = ("y", "prediction", "mean_dev")
    if any(getattr(f, a, None) is None for a in need):
        return False
    X = gen.frame(case)
    if case["mode"] == "exponential" and f.feature_type is not None:
        w = w * np.isfinite(X["PR"].values)
    from cbv import ref

    rf = ref.RefFeature(f.feature_group, [0] * len(f.feature_group), X)
    n = rf.n + 1
    sw, sy, sp = (np.array([np.sum(v[r]) for r in rf.members]) for v in (w, w * y, w * pred))
    quantile = case["params"].get("quantile") if case["mode"] in ("mquantile", "aquantile") else None
    with np.errstate(all="ignore"):
        if quantile is None:
            t, p = (sy + 1) / (sw + 1), (sp + 1) / (sw + 1)
            if n > 1:
                ty, tp = sy[:-1].sum() / sw[:-1].sum(), sp[:-1].sum() / sw[:-1].sum()
            else:
                ty, tp = y.mean(), pred.mean()
            keep = np.ones(n, dtype=bool)
        else:
            from checks import pinball

            keep = np.array([len(r) > 0 and w[r].sum() > 0 for r in rf.members])
            t = np.array([pinball.weighted_quantile(y[r], w[r], quantile) if k else 1.0 for r, k in zip(rf.members, keep)])
            p = np.where(keep, sp / sw, 1.0)
            ty, tp = pinball.weighted_quantile(y, w, quantile), sp.sum() / sw.sum()
        if case["mode"] in gen.ADD:
            exp = (t - ty, p - tp, p - t)
        else:
            exp = (np.log(t / ty + 1e-12), np.log(p / tp + 1e-12), np.log(p + 1e-12) - np.log(t + 1e-12))
    for a, e in zip(need, exp):
        v = np.asarray(getattr(f, a), dtype=float)
        require(v.shape == (n,), "%s of %r has %r entries, the feature has %d bins" % (a, f.feature_group, v.shape, n))
        scale = max(1.0, float(np.abs(y).max())) if case["mode"] in gen.ADD else 1.0
        same(v[keep] / scale, e[keep] / scale, "%s of %r" % (a, f.feature_group), 1e-8)
    return True


def check(case, ctx):
    mode = case["mode"]
    plain = fit(case, None if case["none"] else [])
    k = case["observed"]
    rec, last, early = Full(), PlottingObserver(), PlottingObserver(iteration=k)
    est = fit(case, [last, Quiet(), rec, early])
    X, P = gen.frame(case), gen.pred_frame(case)
    for T in (X, P):
        a, b = gen.raw_predict(case, plain, T), gen.raw_predict(case, est, T)
        require(np.array_equal(a, b, equal_nan=True), "observers change predictions: %r, without %r" % (b[:5], a[:5]))
        ca, cb = plain.get_feature_contributions(T), est.get_feature_contributions(T)
        require(set(ca) == set(cb) and all(np.array_equal(ca[g], cb[g]) for g in ca), "observers change contributions")
    require(int(plain.iteration_) == int(est.iteration_), "observers change the number of iterations")
    require(tuple(plain.stop_criteria_) == tuple(est.stop_criteria_), "observers change the stop reason")
    ia, ib = plain.get_feature_importances(), est.get_feature_importances()
    require(ia == ib or (set(ia) == set(ib) and all(np.isclose(ia[g], ib[g], equal_nan=True) for g in ia)), "observers change importances")

    n = int(est.iteration_)
    its = [s[0] for s in rec.seen]
    require(its == list(range(n)) + [-1], "observers called for iterations %r, %d were made" % (its, n))
    y = gen.target(case)
    w = np.asarray(case["w"], dtype=float) if case["w"] is not None else np.ones(len(y))
    for (it, pred, loss, delta, ww), (xx, yy, q) in zip(rec.seen, rec.data):
        require(np.array_equal(yy, y) and np.allclose(ww, w, rtol=1e-12), "target or weights reported to observers differ")
        require(len(xx) == len(y) and all(np.array_equal(xx[c].values, X[c].values, equal_nan=True) for c in X), "data reported to observers differ")
        require(q == (case["params"]["quantile"] if mode in ("mquantile", "aquantile") else None), "quantile %r reported" % (q,))
        own = c17.own_loss(case, pred, w)
        if own is not None and np.isfinite(own):
            require(abs(loss - own) <= 1e-9 * max(abs(own), 1e-300) + 1e-300, "loss %r reported in iteration %d instead of %r" % (loss, it, own))
    losses = [s[2] for s in rec.seen]
    deltas = [s[3] for s in rec.seen[1:]]
    require(np.array_equal(last.loss, losses, equal_nan=True), "observed losses %r instead of %r" % (last.loss, losses))
    require(np.array_equal(last.factor_change, deltas, equal_nan=True), "observed factor changes %r instead of %r" % (last.factor_change, deltas))
    watched = [(last, -1)]
    if 0 < k < n:
        watched.append((early, k))
        require(np.array_equal(early.loss, losses[: k + 1], equal_nan=True), "losses up to iteration %d: %r instead of %r" % (k, early.loss, losses))
        require(np.array_equal(early.factor_change, deltas[:k], equal_nan=True), "factor changes up to iteration %d" % k)
        ctx.label("intermediate iteration")
    elif k >= n:
        try:
            early.check_fitted()
        except ValueError:
            pass
        else:
            require(False, "observer of iteration %d is filled after %d iterations" % (k, n))
    for obs, it in watched:
        obs.check_fitted()
        pred = rec.seen[its.index(it)][1]
        if np.isfinite(pred).all():
            check_histogram(case, obs.histograms, pred, y, w)
        groups = case["groups"] + (case["ext"] if mode == "exponential" else [])
        if case["params"].get("hier") and 0 <= it < 3:
            groups = [g for g in groups if g in case["params"]["hier"]]
        got = [tuple(f.feature_group) for f in obs.features]
        if case["params"].get("hier") and it == 3 and len(got) < len(groups):
            # the other groups are trained from the fourth iteration on
            groups = [g for g in groups if g in case["params"]["hier"]]
        require(got == [tuple(g) for g in groups], "observed feature groups %r instead of %r" % (got, groups))
        for f, (g, t, v) in zip(obs.features, rec.factors[it]):
            if v is not None and getattr(f, "factors_link", None) is not None:
                require(np.array_equal(f.factors_link, v), "observed factors of %r are not those of iteration %d" % (g, it))
                if it == -1:
                    size = [int(s) for s in np.atleast_1d(obs.n_feature_bins[g])]
                    cells = [list(map(float, c)) for c in np.ndindex(*size)] + [[np.nan] * len(g)]
                    require(len(cells) == len(v), "%r bins reported for %r, %d factors" % (size, g, len(v)))
                    T = X.iloc[np.zeros(len(cells), dtype=int)].reset_index(drop=True)
                    for j, c in enumerate(g):
                        T[c] = [t_[j] for t_ in cells]
                    con = est.get_feature_contributions(T)[" ".join(g) + ("_external" if t is not None else "")]
                    scale = max(1.0, float(np.abs(y).max())) if mode in gen.ADD else 1.0
                    with np.errstate(all="ignore"):
                        link = gen.link(mode, con)
                    ok = np.isfinite(link) & (np.abs(link) < 30)
                    same(np.asarray(v)[ok] / scale, link[ok] / scale, "observed factors of %r" % (g,), 1e-7)
        for g in groups:
            v = X[list(g)].values
            ok = np.all(np.isfinite(v) & (v >= 0), axis=1)
            if ok.any():
                exp = [int(m) + 1 for m in v[ok].max(axis=0)]
                require(list(np.atleast_1d(obs.n_feature_bins[tuple(g)])) == exp, "%r bins reported for %r, the data has %r" % (obs.n_feature_bins[tuple(g)], g, exp))
    final = rec.seen[-1][1]
    tables = 0
    if np.isfinite(final).all():
        tables = sum(check_feature_table(case, f, final, y, w) for f in last.features)
    if tables:
        ctx.label("tables for plots")
    ctx.label("mode:" + mode)
    ctx.mark(n >= 2 and len(np.unique(final)) > 1)


@st.composite
def cases(draw, modes, **kw):
    case = draw(gen.problems(modes=modes, hier=True, **kw))
    case["observed"] = draw(st.integers(1, 6))
    case["none"] = draw(st.booleans())
    if draw(st.booleans()):
        case["params"]["min_loss"] = case["params"]["min_factor"] = -1.0
    return case


@st.composite
def sparse(draw):
    """Two-dimensional features with many empty cells."""
    case = draw(cases(["mquantile", "aquantile"], max_iter=2))
    rs = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    n = len(case["y"])
    k = draw(st.integers(2, 5))
    for c in ("a", "b"):
        case["cols"][c] = rs.randint(0, k, size=n).astype(float).tolist()
        case["pred"][c] = rs.randint(0, k, size=12).astype(float).tolist()
        case["props"].setdefault(c, 4)
    case["groups"] = [["a"], ["b", "a"]]
    case["params"].pop("hier", None)
    case["row_keys"] = gen.row_keys(case)
    return case


SUBS = [
    Sub("fast", lambda: cases(gen.FAST, max_iter=8), check, 300),
    Sub("gaps", lambda: cases(gen.FAST, max_iter=4, gaps=True, max_bins=10), check, 150),
    Sub("special", lambda: cases(["nbinomc", "exponential"], max_iter=5), check, 120),
    Sub("large", lambda: cases(gen.FAST, **gen.LARGE), check, 24),
    Sub("slow", lambda: cases(gen.SLOW), check, 60),
    Sub("sparse", sparse, check, 60),
]
