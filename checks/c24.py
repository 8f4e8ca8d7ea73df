"""C24: feature property flags combine and are recognised consistently."""
import numpy as np
from hypothesis import strategies as st

from cyclic_boosting import flags

from cbv.core import Sub, require

PROPERTY = "C24"
RULE = (
    "a case is a combination of public flags (quick and thorough visit all 2^13 combinations) or a property lookup; "
    "non-trivial = at least two flags are combined, or the lookup has a declared and an undeclared member"
)
NAMES = [
    "IS_CONTINUOUS", "IS_ORDERED", "IS_UNORDERED", "IS_MONOTONIC", "HAS_MISSING", "MISSING_NOT_LEARNED",
    "USE_ORIGINAL", "CORR_TO_WIDTH", "IS_LINEAR", "IS_SEASONAL", "HAS_MAGIC_INT_MISSING", "INCREASING", "DECREASING",
]
IMPLIES = {"IS_MONOTONIC": "IS_CONTINUOUS", "MISSING_NOT_LEARNED": "HAS_MISSING", "HAS_MAGIC_INT_MISSING": "HAS_MISSING"}
RECOGNISERS = {
    "is_continuous_set": "IS_CONTINUOUS",
    "is_ordered_set": "IS_ORDERED",
    "is_unordered_set": "IS_UNORDERED",
    "is_monotonic_set": "IS_MONOTONIC",
    "increasing_set": "INCREASING",
    "decreasing_set": "DECREASING",
    "has_missing_set": "HAS_MISSING",
    "missing_not_learned_set": "MISSING_NOT_LEARNED",
    "has_magic_missing_set": "HAS_MAGIC_INT_MISSING",
    "is_linear_set": "IS_LINEAR",
    "is_seasonal_set": "IS_SEASONAL",
}


def closure(names):
    """The flags contained in a combination: the named ones and what they imply."""
    out = set(names)
    for n in names:
        if n in IMPLIES:
            out.add(IMPLIES[n])
    return out


def check_one(names):
    value = 0
    for n in names:
        value |= getattr(flags, n)
    have = closure(names)
    for fn, flag in RECOGNISERS.items():
        got = getattr(flags, fn)(value)
        require(bool(got) == (flag in have), "%s(%s) is %r" % (fn, " | ".join(sorted(names)), got))
    kinds = len(have & {"IS_CONTINUOUS", "IS_ORDERED", "IS_UNORDERED"})
    valid = kinds == 1 and not {"INCREASING", "DECREASING"} <= have
    try:
        flags.check_flags_consistency(value)
        accepted = True
    except ValueError:
        accepted = False
    require(accepted == valid, "%s is %s" % (" | ".join(sorted(names)), "accepted" if accepted else "rejected"))
    text = flags.flags_to_string(value)
    parts = text.split(" | ") if text else []
    require(
        len(parts) == len(set(parts)) and set(parts) == have,
        "%s is described as %r" % (" | ".join(sorted(names)), text),
    )


def check_block(case, ctx):
    for bits in range(2**13):
        check_one([NAMES[i] for i in range(13) if bits >> i & 1])
        ctx.label("combinations")
    ctx.mark(True)


def check_random(case, ctx):
    names = case["names"]
    check_one(names)
    # order and repetition of the combination do not matter
    a, b = 0, 0
    for n in names:
        a |= getattr(flags, n)
    for n in reversed(names + names[:2]):
        b |= getattr(flags, n)
    require(a == b, "flags are no bit masks")
    ctx.mark(len(names) > 1)


def check_lookup(case, ctx):
    props = None if case["props"] is None else {(int(k) if case["ints"] else "f%s" % k): v for k, v in case["props"].items()}
    keep = None if props is None else dict(props)
    group = [int(k) if case["ints"] else "f%s" % k for k in case["group"]]
    exp = [case["default"] if props is None or props.get(g) is None else props[g] for g in group]
    got = flags.read_feature_property(props, tuple(group), case["default"])
    require(isinstance(got, tuple) and list(got) == exp, "lookup of %r in %r: %r" % (group, props, got))
    one = flags.read_feature_property(props, group[0], case["default"])
    require(one == exp[0], "lookup of %r in %r: %r" % (group[0], props, one))
    text = flags.flags_to_string(tuple(got))
    require(text == tuple(flags.flags_to_string(g) for g in got), "description of a group: %r" % (text,))
    require(props == keep, "properties changed")
    ctx.mark(props is not None and len({g in props for g in group}) == 2)


@st.composite
def lookups(draw):
    mask = st.lists(st.sampled_from(NAMES), min_size=0, max_size=4).map(
        lambda ns: int(np.bitwise_or.reduce([getattr(flags, n) for n in ns] + [0]))
    )
    keys = draw(st.lists(st.sampled_from("012345"), max_size=5, unique=True))
    return {
        "props": None if draw(st.integers(0, 4)) == 0 else {k: draw(mask) for k in keys},
        "group": draw(st.lists(st.sampled_from("012345"), min_size=1, max_size=4)),
        "default": draw(mask),
        "ints": draw(st.booleans()),
    }


SUBS = [
    Sub("all", lambda: st.just({"all": True}), check_block, 1, 1, shrink_rows=False, shards=1),
    Sub("combine", lambda: st.fixed_dictionaries({"names": st.lists(st.sampled_from(NAMES), max_size=13, unique=True)}),
        check_random, 1500, shrink_rows=False),
    Sub("lookup", lookups, check_lookup, 1500, shrink_rows=False),
]
