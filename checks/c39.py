"""C39: settings changed after construction act like settings given at construction."""
import inspect

import numpy as np
import pandas as pd
import sklearn.base
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from checks.c06 import same, summary
from cyclic_boosting import flags
from cyclic_boosting.utils import ConvergenceError

PROPERTY = "C39"
RULE = (
    "a case is a training problem, a different configuration of the same estimator and a way to change the one into the "
    "other; non-trivial = training converged, at least two settings change and the model of the other configuration differs"
)


def other_config(case):
    """Another configuration for the same data."""
    rs = np.random.RandomState(case["seed2"])
    c = dict(case, params=dict(case["params"]))
    p, mode = c["params"], case["mode"]

    def sometimes():
        return rs.randint(2) == 0

    if sometimes():
        p["max_iter"] = int(rs.choice([1, 2, 4, 7]))
    if sometimes():
        p["min_loss"], p["min_factor"] = 0.5, 0.3
    if sometimes():
        p["smoother"] = str(rs.choice(["default", "none", "groupby", "wmean"]))
    if sometimes():
        p["lr"] = [None, "one", "const_half"][rs.randint(3)]
    if sometimes():
        p["aggregate"] = not p.get("aggregate", True)
    if sometimes():
        c["props"] = {k: flags.IS_UNORDERED | flags.HAS_MISSING for k in case["props"]}
    if sometimes():
        c["w"] = None
    if sometimes():
        c["prior"] = None
    if len(case["groups"]) > 1 and sometimes():
        c["groups"] = [g for i, g in enumerate(case["groups"]) if i != rs.randint(2)] or case["groups"][:1]
        if mode == "exponential":
            c["ext"] = case["ext"][:1]
        if p.get("hier"):
            p["hier"] = [g for g in p["hier"] if g in c["groups"]] or None
    if mode not in ("exponential", "nbinomc") and sometimes():
        p["hier"] = None if p.get("hier") else [c["groups"][0]]
    for name, values in (("a", [1.0, 1.7]), ("c", [0.0, 0.4]), ("quantile", [0.2, 0.7]), ("regalpha", [0.0, 0.4]),
                         ("gamma", [0.0, 2.0]), ("n_steps", [5, 15]), ("bayes", [False, True]), ("var_prior_exponent", [0.1, 2.0])):
        if sometimes():
            p[name] = values[rs.randint(2)]
    if "PEXP" in case["extra"] and sometimes():
        c["extra"] = {k: v for k, v in case["extra"].items() if k != "PEXP"}
    return c


def changes(cls, old, new):
    default = {k: v.default for k, v in inspect.signature(cls.__init__).parameters.items() if k != "self"}
    full = {k: new.get(k, old.get(k) if default.get(k) is inspect.Parameter.empty else default.get(k)) for k in {*old, *new}}
    return {k: v for k, v in full.items() if not (k in old and (old[k] is v or (type(old[k]) is type(v) and old[k] == v)))}


def check(case, ctx):
    other = other_config(case)
    cls, new = gen.settings(case)
    _, old = gen.settings(other)
    X, y, P = gen.frame(case), gen.target(case), gen.pred_frame(case)
    fresh = gen.fit(case)
    if fresh is None:
        raise Discard("diverged")
    m = cls(**old)
    first = None
    if case["before"]:
        try:
            m.fit(X.copy(), y.copy())
            first = summary(case, m, P)
        except ConvergenceError:
            pass
    todo = changes(cls, old, new)
    names = sorted(todo)
    np.random.RandomState(case["seed2"]).shuffle(names)
    if case["single"]:
        for k in names:
            m.set_params(**{k: todo[k]})
    else:
        m.set_params(**{k: todo[k] for k in names})
    # unset settings are replaced by their defaults at construction, which scikit-learn's cloning refuses
    copied = case["clone"] and not any(m.get_params(deep=False).get(k, 0) is None for k in ("smoother_choice", "observers", "learn_rate"))
    if copied:
        m = sklearn.base.clone(m)
        ctx.label("copied")
    got = m.get_params(deep=False)
    for k in names:
        if todo[k] is not None and not callable(todo[k]):
            require(got[k] is todo[k] or copied or got[k] == todo[k], "setting %s is %r instead of %r" % (k, got[k], todo[k]))
    m.fit(X.copy(), y.copy())
    want = summary(case, fresh, P)
    same(summary(case, m, P), want, "settings %r changed from %r" % ({k: todo[k] for k in names}, {k: old.get(k) for k in names}))
    for k in names:
        ctx.label(k)
    ctx.label(case["mode"])
    ctx.mark(len(names) > 1 and (first is None or first["pred"].shape != want["pred"].shape or not np.allclose(first["pred"], want["pred"])))


def check_binner(case, ctx):
    from cyclic_boosting import binning

    rs = np.random.RandomState(case["seed"])
    n = case["n"]
    X = pd.DataFrame({"x": np.round(rs.normal(size=n), 2), "k": rs.randint(0, 5, size=n) * 3.0, "W": rs.randint(1, 4, size=n) * 1.0})
    X.loc[rs.uniform(size=n) < 0.1, "x"] = np.nan
    cls = binning.ECdfTransformer if case["ecdf"] else binning.BinNumberTransformer

    def config():
        return dict(
            n_bins=int(rs.choice([2, 4, 9])),
            feature_properties={"x": flags.IS_CONTINUOUS, "k": int(rs.choice([flags.IS_UNORDERED, flags.IS_CONTINUOUS]))},
            weight_column=[None, "W"][rs.randint(2)],
            tolerance=float(rs.choice([0.1, 0.4])),
        )

    old, new = config(), config()
    m = cls(**old)
    if case["before"]:
        m.fit(X.copy())
    m.set_params(**new)
    if case["clone"]:
        m = sklearn.base.clone(m)
    got = np.asarray(m.fit(X.copy()).transform(X.copy()), dtype=float)
    want = np.asarray(cls(**new).fit(X.copy()).transform(X.copy()), dtype=float)
    require(np.array_equal(got, want, equal_nan=True), "settings %r changed to %r: %r instead of %r" % (old, new, got[:4], want[:4]))
    ctx.label("binner")
    ctx.mark(sum(old[k] != new[k] for k in new) > 1)


WAYS = st.tuples(st.integers(0, 2**31 - 1), st.booleans(), st.booleans(), st.sampled_from([False, False, True]))


def strat(modes, **kw):
    return st.tuples(gen.problems(modes=modes, pred_rows=8, **kw), WAYS).map(
        lambda t: dict(t[0], seed2=t[1][0], before=t[1][1], single=t[1][2], clone=t[1][3])
    )


def binners():
    return st.tuples(WAYS, st.integers(3, 60), st.booleans()).map(
        lambda t: {"seed": t[0][0], "before": t[0][1], "clone": t[0][3], "n": t[1], "ecdf": t[2]}
    )


SUBS = [
    Sub("fast", lambda: strat(gen.FAST, hier=True, max_rows=50), check, 600),
    Sub("slow", lambda: strat(gen.SLOW, max_rows=30, max_cols=2), check, 60),
    Sub("special", lambda: strat(["nbinomc", "exponential"], max_rows=50), check, 160),
    Sub("binner", binners, check_binner, 300, shrink_rows=False),
]
