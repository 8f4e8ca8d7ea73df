"""C17: training stops exactly when a documented stop criterion is met."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from cyclic_boosting.observers import BaseObserver
from cyclic_boosting.utils import ConvergenceError

from cbv import gen
from cbv.core import Discard, Sub, Violation, require

PROPERTY = "C17"
RULE = (
    "a case is a training problem trained once without early stop and again with thresholds placed around the recorded "
    "changes; non-trivial = at least two iterations and the second training stops before the limit"
)


class Recorder(BaseObserver):
    def __init__(self):
        self.seen = []
        self.inner = []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.seen.append(
            (iteration, np.array(prediction, dtype=float), float(estimator_state["insample_loss"]), delta, np.array(weights, dtype=float))
        )

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        self.inner.append((iteration, feature_i))


class Rate:
    """Learning rate that remembers how it was asked."""

    def __init__(self, name):
        self.f = gen.get_learn_rate(name) or gen.get_learn_rate("half")
        self.calls = []

    def __call__(self, iteration, maximal_iteration, feature=None):
        self.calls.append((iteration, maximal_iteration, None if feature is None else tuple(feature.feature_group)))
        return self.f(iteration, maximal_iteration, feature)


def own_loss(case, pred, w):
    y = gen.target(case)
    mode = case["mode"]
    if mode == "gbs":
        return np.sum(w * (pred - y) ** 2) / np.sum(w[y != 0])
    if mode in ("mquantile", "aquantile"):
        q = case["params"]["quantile"]
        return np.sum(w * np.where(y < pred, (1 - q) * (pred - y), q * (y - pred))) / np.sum(w)
    if mode in ("mgeneric", "ageneric", "gclassifier"):
        return gen.COSTS[case["params"].get("cost", "logloss")](pred, y, w)
    if mode == "nbinomc":
        return None
    return np.sum(w * (pred - y) ** 2) / np.sum(w)


def train(case, **params):
    c = dict(case, params=dict(case["params"], **params))
    rec, rate = Recorder(), Rate(c["params"]["lr"])
    est = gen.build(c, observers=[rec], learn_rate=rate)
    try:
        est.fit(gen.frame(c), gen.target(c))
    except ConvergenceError:
        return None, rec, rate
    return est, rec, rate


def verify(case, est, rec, rate, mx):
    """What is reported during one training is consistent."""
    n = int(est.iteration_)
    its = [s[0] for s in rec.seen]
    require(its == list(range(n)) + [-1], "observers called for iterations %r, %d were made" % (its, n))
    ng = len(case["groups"]) + (len(case["ext"]) if case["mode"] == "exponential" else 0)
    asked = {}
    for it, m, g in rate.calls:
        require(m == mx, "learning rate asked with limit %r instead of %r" % (m, mx))
        asked.setdefault(it, []).append(g)
    require(sorted(asked) == list(range(1, n + 1)), "learning rate asked for iterations %r of %d" % (sorted(asked), n))
    groups = sorted(tuple(g) for g in case["groups"] + (case["ext"] if case["mode"] == "exponential" else []))
    for it, gs in asked.items():
        require(sorted(gs) == groups, "learning rate in iteration %d asked for %r" % (it, gs))
    require(rec.inner == [(i, k) for i in range(n) for k in range(ng)], "features observed: %r" % (rec.inner[:10],))
    w = np.asarray(case["w"], dtype=float) if case["w"] is not None else np.ones(len(case["y"]))
    for it, pred, loss, delta, ww in rec.seen:
        require(np.allclose(ww, w, rtol=1e-12), "weights reported as %r" % (ww[:4],))
        exp = own_loss(case, pred, w)
        if exp is not None:
            require(
                abs(loss - exp) <= 1e-9 * max(abs(exp), 1e-300) + 1e-300 or (not np.isfinite(exp)),
                "loss %r reported in iteration %d, the predictions give %r" % (loss, it, exp),
            )
    final = rec.seen[-1][1]
    got = gen.raw_predict(case, est, gen.frame(case))
    scale = max(1e-3, np.abs(gen.target(case)).max()) if case["mode"] in gen.ADD else 1e-300
    if case["mode"] == "locpoisson":
        final = np.where(final > 0, final, 0)
    require(gen.rel(got, final, scale) <= 1e-8, "model predicts %r, last reported %r" % (got[:4], final[:4]))


def check(case, ctx):
    mx = case["params"]["max_iter"]
    est, rec, rate = train(case, min_loss=-1.0, min_factor=-1.0)
    if est is None:
        raise Discard("diverged")
    losses = [s[2] for s in rec.seen]
    if not np.isfinite(losses).all() or any(v > 1.99 * losses[0] for v in losses):
        raise Discard("diverging")
    require(int(est.iteration_) == mx, "%d iterations without early stop, limit %d" % (est.iteration_, mx))
    require(tuple(bool(v) for v in est.stop_criteria_) == (True, False, False), "stop reason %r" % (est.stop_criteria_,))
    verify(case, est, rec, rate, mx)
    change = [(losses[i] - losses[i + 1]) / (losses[i] if losses[i] != 0 else 1.0) for i in range(mx)]
    change = np.abs(change)
    delta = np.array([float(s[3]) for s in rec.seen[1:]])
    # thresholds halfway between recorded values
    u, v = case["at"]
    ml, mf = -1.0, -1.0
    if case["which"] in ("loss", "both"):
        k = sorted(set(change))
        i = int(u * len(k)) % len(k)
        ml = k[i] * 1.5 + 1e-9 if i == len(k) - 1 else (k[i] + k[i + 1]) / 2
    if case["which"] in ("factor", "both"):
        k = sorted(set(delta))
        i = int(v * len(k)) % len(k)
        mf = k[i] * 1.5 + 1e-9 if i == len(k) - 1 else (k[i] + k[i + 1]) / 2
    if case["which"] == "limit":
        # nothing but the exact values themselves is below: zero thresholds
        ml, mf = 0.0, 0.0
        if np.any((change < 1e-12) | (delta < 1e-12)):
            raise Discard("borderline")
    if mf > 50 or ml > 50:
        raise Discard("threshold so large that no training would start")
    if np.any(np.abs(change - ml) <= 1e-6 * np.abs(ml)) or np.any(np.abs(delta - mf) <= 1e-6 * np.abs(mf)):
        raise Discard("borderline")
    stop = mx
    for i in range(mx):
        if change[i] <= ml or delta[i] <= mf:
            stop = i + 1
            break
    est2, rec2, rate2 = train(case, min_loss=ml, min_factor=mf)
    require(est2 is not None, "training with thresholds diverges")
    verify(case, est2, rec2, rate2, mx)
    require(
        int(est2.iteration_) == stop,
        "%d iterations, criteria first met after %d (loss changes %r <= %r, factor changes %r <= %r)"
        % (est2.iteration_, stop, change, ml, delta, mf),
    )
    reason = (stop >= mx, bool(delta[stop - 1] <= mf), bool(change[stop - 1] <= ml))
    require(tuple(bool(x) for x in est2.stop_criteria_) == reason, "stop reason %r instead of %r" % (est2.stop_criteria_, reason))
    for a, b in zip(rec2.seen[:-1], rec.seen):
        require(np.array_equal(a[1], b[1]) and a[2] == b[2], "iteration %d differs between two trainings" % a[0])
    require(np.array_equal(rec2.seen[-1][1], rec.seen[stop][1]), "final state is not that of iteration %d" % stop)
    ctx.label(case["mode"])
    ctx.label("early" if stop < mx else "limit")
    ctx.mark(mx >= 2 and stop < mx)


def check_default(case, ctx):
    """Loss and factor changes equal those recomputed from the reported contributions of shortened trainings."""
    mode = case["mode"]
    mx = case["params"]["max_iter"]
    X = gen.frame(case)
    # one row per bin of each feature, including the one for missing values
    tables = []
    for g in case["groups"]:
        rows = X[g].values
        ok = np.all(np.isfinite(rows) & (rows >= 0), axis=1)
        if not ok.any():
            raise Discard("empty feature")
        size = rows[ok].max(axis=0).astype(int) + 1
        cells = [list(map(float, t)) for t in np.ndindex(*size)] + [[np.nan] * len(g)]
        T = X.iloc[np.zeros(len(cells), dtype=int)].reset_index(drop=True)
        for j, c in enumerate(g):
            T[c] = [t[j] for t in cells]
        tables.append(T)
    full, rec, _ = train(case, min_loss=-1.0, min_factor=-1.0)
    if full is None:
        raise Discard("diverged")
    states = [[np.zeros(len(T)) for T in tables]]
    for k in range(1, mx + 1):
        est, r, _ = train(case, min_loss=-1.0, min_factor=-1.0, max_iter=k)
        if est is None or any(s[2] > 1.99 * r.seen[0][2] for s in r.seen):
            raise Discard("diverged")
        states.append([gen.link(mode, est.get_feature_contributions(T)[" ".join(g)]) for g, T in zip(case["groups"], tables)])
    for k in range(1, mx + 1):
        if case["params"]["aggregate"]:
            step = [b - a for a, b in zip(states[k - 1], states[k])]
            old = [b - a for a, b in zip(states[k - 2], states[k - 1])] if k > 1 else [np.zeros(len(T)) for T in tables]
        else:
            step, old = states[k], states[k - 1]
        exp = np.mean([np.mean(np.abs(s - o)) for s, o in zip(step, old)])
        got = float(rec.seen[k][3])
        scale = max(1.0, max(np.abs(s).max() for s in states[k]))
        require(abs(got - exp) <= 1e-8 * scale, "factor change %r reported after iteration %d instead of %r" % (got, k, exp))
    ctx.label(mode)
    ctx.mark(mx >= 2)


class Wild:
    def __init__(self, value):
        self.value = value

    def __call__(self, iteration, maximal_iteration, feature=None):
        return self.value


def check_wild(case, ctx):
    """Whatever the learning rate, a training either fails with the documented error or returns a sane model."""
    rec = Recorder()
    est = gen.build(case, learn_rate=Wild(case["rate"]), observers=[rec])
    w = np.asarray(case["w"], dtype=float) if case["w"] is not None else np.ones(len(case["y"]))
    X = gen.frame(case)
    try:
        with np.errstate(all="ignore"):
            est.fit(X, gen.target(case))
    except ConvergenceError:
        ctx.label("error")
        ctx.mark(True)
        return
    p = gen.raw_predict(case, est, X)
    loss = own_loss(case, p, w)
    first = rec.seen[0][2]
    require(
        loss <= 2 * first * (1 + 1e-9) + 1e-12 or case["mode"] == "locpoisson",
        "model with loss %r returned, constant prediction has %r (learning rate %r)" % (loss, first, case["rate"]),
    )
    ctx.label("model")
    ctx.mark(int(est.iteration_) > case["params"]["max_iter"])


def check_explode(case, ctx):
    """Additive training with a far too large learning rate keeps exploding."""
    rs = np.random.RandomState(case["seed2"])
    n = 12 * case["k"]
    a = np.arange(n) % case["k"]
    y = np.round((a - (case["k"] - 1) / 2) * case["size"] + rs.normal(size=n) * 1e-3 * case["size"], 6)
    import pandas as pd

    c = dict(
        mode=case["mode"], cols={"a": a.astype(float).tolist()}, y=y.tolist(), groups=[["a"]], ext=None, props={"a": 4}, w=None,
        prior=None, extra={}, params=dict(max_iter=case["max_iter"], smoother="none", min_loss=-1.0, min_factor=-1.0, quantile=0.5),
    )
    est = gen.build(c, learn_rate=Wild(case["rate"]))
    try:
        est.fit(pd.DataFrame({"a": a.astype(float)}), y)
    except ConvergenceError:
        ctx.label(case["mode"])
        ctx.mark(True)
        return
    raise Violation("training with learning rate %r returns a model with loss %r" % (case["rate"], est.insample_loss_))


@st.composite
def cases(draw, modes, **kw):
    case = draw(gen.problems(modes=modes, **kw))
    case["at"] = [draw(st.floats(0, 0.999)), draw(st.floats(0, 0.999))]
    case["which"] = draw(st.sampled_from(["loss", "factor", "both", "limit"]))
    return case


@st.composite
def wild(draw):
    case = draw(gen.problems(modes=[m for m in gen.FAST if m != "gbs"], kinds=("count", "real", "spike", "heavy"), weights=("none", "real"), max_iter=8))
    case["rate"] = draw(st.sampled_from([3.0, 6.0, -1.0, -3.0, 1.9, 20.0]))
    return case


@st.composite
def explode(draw):
    return dict(
        mode=draw(st.sampled_from(["location", "gbs", "ageneric", "aquantile"])), k=draw(st.integers(2, 5)), size=draw(st.sampled_from([0.1, 1.0, 30.0])),
        rate=draw(st.sampled_from([4.0, 6.0, -2.0])), max_iter=draw(st.integers(5, 12)), seed2=draw(st.integers(0, 10**6)),
    )


SUBS = [
    Sub("fast", lambda: cases(gen.FAST, max_iter=12), check, 900),
    Sub("slow", lambda: cases(gen.SLOW), check, 150),
    Sub("special", lambda: cases(["nbinomc", "exponential"], max_iter=8), check, 250),
    Sub("large", lambda: cases(gen.FAST, **gen.LARGE), check, 40),
    Sub("changes", lambda: gen.problems(modes=gen.FAST, max_iter=4, learn_rates=("one", "const_half", "halving"), weights=("none", "real")), check_default, 300),
    Sub("wild", wild, check_wild, 500),
    Sub("explode", explode, check_explode, 60, shrink_rows=False),
]
