"""C16: custom loss functions are minimised bin by bin."""
import numpy as np
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from checks import lossref

PROPERTY = "C16"
RULE = lossref.RULE + " (sub-checks empty, calls: training converged and some bin has no rows / several calls were seen)"
MODES = ["mgeneric", "ageneric", "gclassifier"]


@st.composite
def trained(draw, smoothers, **kw):
    kw.setdefault("modes", MODES)
    case = draw(
        gen.problems(
            weights=("none", "int", "real"), kinds=("count", "real", "real"), smoothers=smoothers, converge=True, max_rows=70, **kw,
        )
    )
    mode = case["mode"]
    if mode == "gclassifier":
        case["params"]["cost"] = draw(st.sampled_from(["logloss", "quadratic"]))
    else:
        case["params"]["cost"] = draw(st.sampled_from(["quadratic", "quadratic", "expectile20", "pinball30"]))
    if mode == "mgeneric":
        case["y"] = [v + 0.25 for v in case["y"]]
    return case


def check_empty(case, ctx):
    """Bins without rows, wherever they lie, are neutral and do not shift the others."""
    mode = case["mode"]
    est = gen.fit(case)
    if est is None:
        raise Discard("diverged")
    X, P = gen.frame(case), gen.pred_frame(case)
    n = 0
    for g in case["groups"]:
        rows = X[g].values
        ok = np.all(np.isfinite(rows) & (rows >= 0), axis=1)
        if not ok.any():
            continue
        seen = {tuple(r) for r in rows[ok]}
        size = rows[ok].max(axis=0).astype(int) + 1
        cells = [t for t in np.ndindex(*size) if tuple(float(v) for v in t) not in seen]
        if ok.all():
            cells.append(tuple(np.nan for _ in g))
        if not cells:
            continue
        Q = P.iloc[[0] * len(cells)].copy()
        for j, c in enumerate(g):
            Q[c] = [float(t[j]) for t in cells]
        v = np.asarray(est.get_feature_contributions(Q)[" ".join(g)])
        want = {"mgeneric": 1.0, "mquantile": 1.0, "gclassifier": 0.5}.get(mode, 0.0)
        bad = np.abs(v - want) > 1e-12
        require(not bad.any(), "bins %r of %s have no rows but contribute %r" % ([c for c, b in zip(cells, bad) if b][:3], g, v[bad][:3]))
        n += len(cells)
        ctx.label("%dd" % len(g))
    ctx.label(mode)
    ctx.mark(n > 0)


def empties():
    return gen.problems(
        modes=MODES + ["mquantile", "aquantile"], gaps=True, smoothers=("none",), max_bins=6, max_rows=30, max_iter=3,
        weights=("none", "real"),
    )


class Spy:
    """Cost function that checks what it is called with."""

    def __init__(self, name, keys):
        self.f, self.keys, self.calls = gen.COSTS[name], keys, 0
        self.bad = None

    def __call__(self, prediction, y, weights):
        p, y_, w_ = (np.asarray(v, dtype=float) for v in (prediction, y, weights))
        self.calls += 1
        if y_.shape != w_.shape or np.broadcast(p, y_).shape != y_.shape:
            self.bad = "shapes %r, %r, %r" % (p.shape, y_.shape, w_.shape)
        for a, b in zip(y_.ravel().tolist(), w_.ravel().tolist()):
            if (a, b) not in self.keys:
                self.bad = "target %r with weight %r" % (a, b)
        return self.f(prediction, y, weights)

    def __deepcopy__(self, memo):
        return self


def check_calls(case, ctx):
    """The cost function gets the rows' own targets together with their own weights."""
    y = gen.target(case)
    w = np.ones(len(y)) if case["w"] is None else np.asarray(case["w"])
    spy = Spy(case["params"]["cost"], set(zip(y.tolist(), w.tolist())))
    fit_with(case, spy)
    require(spy.bad is None, "the cost function was called with %s" % spy.bad)
    ctx.label(case["mode"])
    ctx.mark(spy.calls > 1)


def fit_with(case, cost):
    from cyclic_boosting.utils import ConvergenceError

    est = gen.build(case)
    est.set_params(costs=cost)
    try:
        est.fit(gen.frame(case), gen.target(case))
    except ConvergenceError:
        pass
    return est


SUBS = [
    Sub("unsmoothed", lambda: trained(("none",), hier=True), lossref.check, 500),
    Sub("smoothed", lambda: trained(("default", "wmean", "groupby"), hier=True), lossref.check, 400),
    Sub("empty", empties, check_empty, 400),
    Sub("calls", lambda: trained(("none", "default")), check_calls, 100),
]
