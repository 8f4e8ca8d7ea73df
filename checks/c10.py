"""C10: multiplicative regression equals the documented algorithm."""
from hypothesis import strategies as st

from cbv import gen
from cbv.core import Discard, Sub, require
from checks import refcheck

PROPERTY = "C10"
RULE = refcheck.RULE
KINDS = ("count", "count", "real", "sparse", "const", "spike", "zeros")


def check_nbinom_is_poisson(case, ctx):
    case = dict(case, mode="nbinom", params=dict(case["params"], a=1.0, c=0.0))
    a = gen.fit(case)
    b = gen.fit(dict(case, mode="poisson"))
    require((a is None) == (b is None), "only one of the two models diverges")
    if a is None:
        raise Discard("diverged")
    P = gen.pred_frame(case)
    pa, pb = a.predict(P), b.predict(P)
    d = gen.rel(pa, pb, 1e-300)
    if d > 1e-7:
        refcheck.compare(
            dict(case, mode="poisson"), ctx, "negative binomial with Poisson parameters", pa, pb, gen.target(case),
            lambda m: m.predict(P),
        )
    ctx.mark(len(set(pa)) > 1)


SUBS = [
    Sub(
        "large",
        lambda: gen.problems(modes=["poisson", "nbinom"], smoothers=("none", "none", "default"), hier=True, converge=True, **gen.LARGE),
        refcheck.check_against_reference,
        48,
    ),
    Sub(
        "unsmoothed",
        lambda: gen.problems(
            modes=["poisson", "nbinom"], kinds=KINDS, smoothers=("none",), max_iter=10, hier=True, gaps=False
        ),
        refcheck.check_against_reference,
        1000,
    ),
    Sub(
        "extreme",
        lambda: gen.problems(
            modes=["poisson", "nbinom"],
            kinds=("heavy", "heavy", "spike"),
            smoothers=("none",),
            weights=("none", "extreme"),
            priors=(False, True),
            wide_prior=True,
            max_iter=16,
            max_rows=150,
            max_bins=12,
            learn_rates=("one", None),
            aggregate=(True, True, True, True, False),
            converge=True,
        ),
        refcheck.check_against_reference,
        400,
    ),
    Sub(
        "smoothed",
        lambda: gen.problems(modes=["poisson", "nbinom"], kinds=KINDS, smoothers=("default", "wmean", "groupby"), max_iter=8, hier=True),
        refcheck.check_against_reference,
        500,
    ),
    Sub(
        "gaps",
        lambda: gen.problems(modes=["poisson", "nbinom"], smoothers=("none", "default"), gaps=True, max_bins=9),
        refcheck.check_against_reference,
        300,
    ),
    Sub("nbinom_is_poisson", lambda: gen.problems(modes=["poisson"], kinds=KINDS), check_nbinom_is_poisson, 300),
]
