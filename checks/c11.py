"""C11: classification equals the documented algorithm."""
from cbv import gen
from cbv.core import Sub
from checks import refcheck

PROPERTY = "C11"
RULE = refcheck.RULE
KINDS = ("count", "count", "count", "const")

SUBS = [
    Sub(
        "large",
        lambda: gen.problems(modes=["classifier"], smoothers=("none", "none", "default"), hier=True, converge=True, **dict(gen.LARGE, max_cols=3, max_bins=20, max_iter=6)),
        refcheck.check_against_reference,
        32,
    ),
    Sub(
        "unsmoothed",
        lambda: gen.problems(modes=["classifier"], kinds=KINDS, smoothers=("none",), max_iter=10, hier=True),
        refcheck.check_against_reference,
        700,
    ),
    Sub(
        "smoothed",
        lambda: gen.problems(modes=["classifier"], kinds=KINDS, smoothers=("default", "wmean", "groupby"), max_iter=8, hier=True),
        refcheck.check_against_reference,
        350,
    ),
    Sub(
        "gaps",
        lambda: gen.problems(modes=["classifier"], smoothers=("none", "default"), gaps=True, max_bins=9),
        refcheck.check_against_reference,
        200,
    ),
]
