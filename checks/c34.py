"""C34: link functions invert each other, learning rates stay within bounds."""
import numpy as np
from hypothesis import strategies as st

from cyclic_boosting import learning_rate as lr
from cyclic_boosting.link import IdentityLinkMixin, LogitLinkMixin, LogLinkMixin

from cbv.core import Sub, require

PROPERTY = "C34"
RULE = (
    "a case is an array of values for a link function, or a learning-rate schedule with an iteration limit; "
    "non-trivial = at least two distinct values, or a limit of at least two iterations"
)
LINKS = {"log": LogLinkMixin(), "logit": LogitLinkMixin(), "identity": IdentityLinkMixin()}
RATES = {
    "one": lr.constant_learn_rate_one,
    "linear": lr.linear_learn_rate,
    "logistic": lr.logistic_learn_rate,
    "half": lr.half_linear_learn_rate,
}


def check_link(case, ctx):
    L = LINKS[case["link"]]
    x = np.array(case["x"], dtype=float)
    keep = x.copy()
    require(bool(np.all(L.is_in_range(x))), "%r not accepted by %s" % (x, case["link"]))
    z = np.asarray(L.link_func(x), dtype=float)
    require(z.shape == x.shape, "shape %r" % (z.shape,))
    if case["link"] == "log":
        exp = np.log(x)
    elif case["link"] == "logit":
        exp = np.log(x) - np.log1p(-x)
    else:
        exp = x
    # the definition p / (1 - p) loses the digits of 1 - p close to one
    tol = 1e-12 * (1 + np.abs(exp)) + (4e-16 / np.maximum(1 - x, 1e-300) if case["link"] == "logit" else 0)
    require(np.all(np.abs(z - exp) <= tol), "%s link of %r is %r instead of %r" % (case["link"], x, z, exp))
    back = np.asarray(L.unlink_func(z), dtype=float)
    require(
        np.all(np.abs(back - x) <= 1e-12 * (1 + np.abs(z)) * np.abs(x) + 1e-300),
        "%s link and inverse of %r give %r" % (case["link"], x, back),
    )
    o = np.argsort(x)
    gap = np.diff(x[o]) > 1e-9 * np.abs(x[o][1:])
    require(np.all(np.diff(z[o])[gap] > 0), "%s link does not increase on %r" % (case["link"], x[o]))
    require(np.array_equal(x, keep), "input changed")
    if len(x):
        z[0] = 123.0
        require(np.array_equal(x, keep), "the result shares memory with the input")
    ctx.label(case["link"])
    ctx.mark(len(np.unique(x)) > 1)


def check_unlink(case, ctx):
    L = LINKS[case["link"]]
    z = np.array(case["z"], dtype=float)
    m = np.asarray(L.unlink_func(z), dtype=float)
    if case["link"] == "log":
        exp = np.exp(z)
    elif case["link"] == "logit":
        exp = np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))
    else:
        exp = z
    require(
        np.all(np.abs(m - exp) <= 1e-12 * (1 + np.abs(z)) * np.abs(exp) + 1e-300),
        "inverse %s link of %r is %r instead of %r" % (case["link"], z, m, exp),
    )
    if case["link"] == "logit":
        require(np.all((m >= 0) & (m <= 1)), "probabilities %r" % (m,))
    if case["link"] == "log":
        require(np.all(m > 0), "means %r" % (m,))
    o = np.argsort(z)
    require(np.all(np.diff(m[o]) >= 0), "inverse %s link decreases" % case["link"])
    near = np.abs(z) <= 12
    if near.any():
        again = np.asarray(L.link_func(m[near]), dtype=float)
        require(
            np.all(np.abs(again - z[near]) <= 1e-9),
            "inverse %s link and link of %r give %r" % (case["link"], z[near], again),
        )
    ctx.label(case["link"])
    ctx.mark(len(np.unique(z)) > 1)


def check_range(case, ctx):
    L = LINKS[case["link"]]
    x = np.array([np.nan if v is None else v for v in case["x"]], dtype=float)
    with np.errstate(all="ignore"):
        if case["link"] == "log":
            ok = bool(np.all(x > 0))
        elif case["link"] == "logit":
            ok = bool(np.all((x >= 0) & (x <= 1)))
        else:
            ok = True
    got = bool(np.all(L.is_in_range(x)))
    require(got == ok, "%s link: range check of %r gives %r" % (case["link"], x, got))
    ctx.label("%s_%s" % (case["link"], ok))
    ctx.mark(len(x) > 1)


def check_rate(case, ctx):
    f = RATES[case["rate"]]
    n = case["n"]
    v = [f(i, n) for i in range(1, n + 1)] if case["pos"] else [
        f(iteration=i, maximal_iteration=n, feature=None) for i in range(1, n + 1)
    ]
    v = np.array(v, dtype=float)
    require(np.all(v > 0) and np.all(v <= 1 + 1e-12), "%s rates %r for %d iterations" % (case["rate"], v, n))
    require(np.all(np.diff(v) >= -1e-12), "%s rates decrease: %r" % (case["rate"], v))
    require(abs(v[-1] - 1) <= 1e-8, "last %s rate is %r" % (case["rate"], v[-1]))
    i = np.arange(1, n + 1)
    if case["rate"] == "one":
        exp = np.ones(n)
    elif case["rate"] == "linear":
        exp = i / n
    elif case["rate"] == "half":
        exp = np.minimum(2 * i / n, 1)
    else:
        # logistic from zero, saturated to 1 - 1e-9 in the last iteration
        exp = np.tanh(i / n * np.arctanh(1 - 1e-9))
    require(np.all(np.abs(v - exp) <= 1e-9), "%s rates %r instead of %r" % (case["rate"], v, exp))
    ctx.label(case["rate"])
    ctx.mark(n > 1)


@st.composite
def links(draw):
    k = draw(st.sampled_from(sorted(LINKS)))
    if k == "log":
        e = st.one_of(st.floats(1e-300, 1e300), st.floats(0.001, 1000.0))
    elif k == "logit":
        e = st.one_of(st.floats(1e-12, 1 - 1e-12), st.floats(1e-300, 0.5))
    else:
        e = st.floats(-1e300, 1e300)
    return {"link": k, "x": draw(st.lists(e, min_size=0, max_size=12))}


@st.composite
def unlinks(draw):
    k = draw(st.sampled_from(sorted(LINKS)))
    r = {"log": 700.0, "logit": 700.0, "identity": 1e300}[k]
    e = st.one_of(st.floats(-r, r), st.floats(-12, 12))
    return {"link": k, "z": draw(st.lists(e, min_size=0, max_size=12))}


@st.composite
def ranges(draw):
    e = st.one_of(
        st.sampled_from([None, 0.0, 1.0, -0.0, np.nextafter(1, 2), -5e-324, 5e-324, 1e308, 0.5]),
        st.floats(0.0, 1.0),
        st.floats(-2.0, 3.0),
    )
    return {"link": draw(st.sampled_from(sorted(LINKS))), "x": draw(st.lists(e, min_size=1, max_size=5))}


SUBS = [
    Sub("link", links, check_link, 3000, shrink_rows=False),
    Sub("unlink", unlinks, check_unlink, 3000, shrink_rows=False),
    Sub("range", ranges, check_range, 3000, shrink_rows=False),
    Sub("rates", lambda: st.fixed_dictionaries(
        {"rate": st.sampled_from(sorted(RATES)), "n": st.integers(1, 400), "pos": st.booleans()}),
        check_rate, 800, shrink_rows=False),
]
