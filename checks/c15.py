"""C15: quantile regression estimates the requested conditional quantile."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from checks import lossref, pinball
from cyclic_boosting.observers import BaseObserver

PROPERTY = "C15"
RULE = lossref.RULE + " (sub-check descent: the loss decreased in some iteration; base: several distinct targets)"
MODES = ["mquantile", "aquantile"]
GAP = 1e-3
LEVELS = [0.37, 0.61, 0.83, 0.2, 0.5, 0.8, 0.95, 0.05, 0.99, 0.013]


def positive(case):
    """Targets and quantiles the multiplicative model can describe."""
    if case["mode"] == "mquantile":
        case["y"] = [v + 0.25 for v in case["y"]]
    return case


def scaled(case, f):
    """The scale of the weights is irrelevant for models without smoothing."""
    if case["w"] is not None:
        case["w"] = [v * f for v in case["w"]]
    return case


SCALES = (1.0, 1.0, 2.0**-14, 2.0**12)


@st.composite
def trained(draw, smoothers, **kw):
    case = draw(
        gen.problems(
            modes=MODES, weights=("none", "int", "real", "real"), kinds=("count", "real", "real", "heavy"), smoothers=smoothers,
            converge=True, max_rows=70, **kw,
        )
    )
    case["params"]["quantile"] = draw(st.sampled_from(LEVELS))
    if smoothers == ("none",):
        scaled(case, draw(st.sampled_from(SCALES)))
    return positive(case)


class Recorder(BaseObserver):
    def __init__(self):
        self.seen = []

    def observe_iterations(self, iteration, X, y, prediction, *args, **kwargs):
        self.seen.append((iteration, np.array(prediction, dtype=float)))

    def observe_feature_iterations(self, *args, **kwargs):
        pass


def check_descent(case, ctx):
    """Unsmoothed training never increases the loss, and the base value is the requested quantile."""
    r = Recorder()
    est = gen.fit(case, observers=[r])
    require(est is not None, "training diverges although every step minimises the loss")
    y = gen.target(case)
    w = np.ones(len(y)) if case["w"] is None else np.asarray(case["w"])
    q = case["params"]["quantile"]
    losses = [pinball.loss(p, y, w, q) for _, p in r.seen]
    for i, (a, b) in enumerate(zip(losses, losses[1:])):
        require(b <= a * (1 + 1e-9) + 1e-12 * np.abs(y).max(), "the loss rises from %r to %r in iteration %d" % (a, b, i + 1))
    got = pinball.loss(est.predict(gen.frame(case)), y, w, q)
    require(got <= losses[0] * (1 + 1e-9) + 1e-12 * np.abs(y).max(), "loss %r, of the base prediction %r" % (got, losses[0]))
    ctx.label(case["mode"])
    ctx.mark(any(b < a * (1 - 1e-6) for a, b in zip(losses, losses[1:])))


def descents():
    return trained(("none",), aggregate=(True,), priors=(False, False, True))


def check_bins(case, ctx):
    """One step of a single feature: each bin gets the quantile of its rows, bins without rows the base value."""
    mode, q = case["mode"], case["params"]["quantile"]
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    y = gen.target(case)
    w = np.ones(len(y)) if case["w"] is None else np.asarray(case["w"])
    X = gen.frame(case)
    g = case["groups"][0]
    far = X.iloc[:1].copy()
    for c in g:
        far[c] = 1e4
    base = float(est.predict(far)[0])
    want = pinball.weighted_quantile(y, w, q)
    require(abs(base - want) <= 1e-9 * (1 + abs(want)), "base value %r, quantile %r of the targets is %r" % (base, q, want))
    rows = X[g].values
    ok = np.all(np.isfinite(rows) & (rows >= 0), axis=1)
    keys = [tuple(r) if o else "missing" for r, o in zip(rows, ok)]
    pred = np.asarray(est.predict(X), dtype=float)
    learned = not any((case["props"][c] & 48) == 48 for c in g)
    lo, hi = limits(case, base)
    some = False
    for key in sorted(set(keys), key=str):
        sel = np.array([k == key for k in keys])
        p = pred[sel]
        require(np.ptp(p) <= 1e-12 * (1 + np.abs(p).max()), "rows of one bin are predicted differently")
        if (key == "missing" and not learned) or not w[sel].sum() > 0:
            require(abs(p[0] - base) <= 1e-9 * (1 + abs(base)), "bin %r without information: %r, base %r" % (key, p[0], base))
            continue
        cand = np.clip(np.concatenate([y[sel], [base]]), lo, hi)
        losses = [pinball.loss(v, y[sel], w[sel], q) for v in cand]
        best, neutral = min(losses), losses[-1]
        got = pinball.loss(p, y[sel], w[sel], q)
        require(got <= neutral * (1 + 1e-9) + 1e-12, "bin %r: loss %r is above the loss %r of the base value" % (key, got, neutral))
        gap = (got - best) / max(neutral - best, 1e-6 * (neutral + best), 1e-12)
        if gap > GAP:
            # the minimiser may be stuck on an edge of the loss; then slightly moved data end elsewhere
            for k in range(5):
                c = lossref.nudged(case, k)
                other = gen.fit(c)
                l2 = pinball.loss(np.asarray(other.predict(X))[sel], y[sel], w[sel], q)
                if abs(l2 - got) > 0.1 * GAP * max(neutral - best, 1e-12) or stuck(case, base, y[sel], w[sel], q, best, neutral):
                    raise Discard("minimiser")
            require(False, "bin %r: loss %r, the best value has %r, the base value %r" % (key, got, best, neutral))
        some = some or neutral - best > 1e-6 * neutral
    ctx.label(mode)
    ctx.label("%dd" % len(g))
    ctx.mark(some)


def limits(case, base):
    """Range of one step: multiplicative steps are limited, much less without aggregation of the steps."""
    if case["mode"] != "mquantile":
        return -np.inf, np.inf
    return (0.5 * base, 2 * base) if case["params"]["aggregate"] else (1e-5 * base, np.inf)


def stuck(case, base, y, w, q, best, neutral):
    """A general minimiser does not reach the best value from the base value either."""
    from scipy import optimize

    mult = case["mode"] == "mquantile"
    n = len(y)
    for order in (np.arange(n), np.arange(n)[::-1], np.roll(np.arange(n), n // 2)):
        with np.errstate(all="ignore"):
            res = optimize.minimize(
                lambda a: pinball.loss(a * base * np.ones(n) if mult else a + base, y[order], w[order], q), 1.0 if mult else 0.0
            )
        v = float(res.x[0]) * base if mult else float(res.x[0]) + base
        v = float(np.clip(v, *limits(case, base)))
        if pinball.loss(v, y, w, q) - best > 0.1 * GAP * max(neutral - best, 1e-12):
            return True
    return False


@st.composite
def single(draw):
    case = draw(
        gen.problems(
            modes=MODES, weights=("none", "int", "real"), kinds=("count", "real", "real", "const", "sparse"), smoothers=("none",),
            converge=True, max_rows=90, max_iter=1, learn_rates=("one",), priors=(False,),
        )
    )
    case["params"]["max_iter"] = 1
    case["params"]["quantile"] = draw(st.sampled_from(LEVELS))
    case["groups"] = [draw(st.sampled_from(case["groups"]))]
    positive(scaled(case, draw(st.sampled_from(SCALES))))
    if draw(st.booleans()):
        # bins of very different levels
        c = case["groups"][0][0]
        levels = 10.0 ** np.array(draw(st.lists(st.integers(-3, 1), min_size=4, max_size=4)))
        case["y"] = [v * levels[int(x) % 4] if np.isfinite(x) else v for v, x in zip(case["y"], gen.frame(case)[c])]
    return case


SUBS = [
    Sub("bins", single, check_bins, 900),
    Sub("descent", descents, check_descent, 250),
    Sub("unsmoothed", lambda: trained(("none",), hier=True), lossref.check, 400),
    Sub("smoothed", lambda: trained(("default", "wmean", "groupby"), hier=True), lossref.check, 300),
]
