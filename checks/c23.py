"""C23: combined features number every combination of bins uniquely."""
import itertools

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.feature_selection import f_classif, f_regression

from cyclic_boosting import flags, utils
from cyclic_boosting.binning import BinNumberTransformer
from cyclic_boosting.interaction_selection import (
    build_binned_interaction_features,
    create_interactions,
    select_interaction_terms_anova,
)

from cbv.core import Discard, Sub, require

PROPERTY = "C23"
RULE = (
    "a case is a matrix of bin numbers with the numbers of bins, or a table with interaction terms; non-trivial = at "
    "least two rows are valid combinations and differ, or at least two interaction terms"
)


def lex(row, n_bins):
    """Lexicographic number by definition: count of smaller combinations."""
    k = 0
    for v, n in zip(row, n_bins):
        k = k * int(n) + int(np.floor(v))
    return k


def check_numbers(case, ctx):
    M = np.array([[np.nan if v is None else v for v in r] for r in case["rows"]], dtype=float)
    M = M.reshape(len(case["rows"]), case["m"])
    if case["dtype"] != "float64":
        M = np.where(np.isfinite(M), M, -1).astype(case["dtype"])
    given = np.array(case["n_bins"], dtype=np.int64) if case["given"] else None
    arg = pd.DataFrame(M, columns=["c%d" % j for j in range(case["m"])]) if case["frame"] else M
    keep = M.copy()
    F = M.astype(float)
    ok = np.all(np.isfinite(F) & (F >= 0), axis=1)
    kw = {}
    if given is not None:
        n_bins = given
        if case["steps"]:
            kw["binsteps"] = utils.bin_steps(given)
    else:
        n_bins = np.floor(F[ok]).max(axis=0).astype(int) + 1 if ok.any() else np.zeros(case["m"], dtype=int)
    got, nb = utils.multidim_binnos_to_lexicographic_binnos(arg, given, **kw)
    require(np.array_equal(np.asarray(arg), keep, equal_nan=True) if F.size else True, "input changed")
    require(np.array_equal(np.asarray(nb), n_bins), "numbers of bins %r instead of %r" % (nb, n_bins))
    require(got.shape == (len(M),) and np.issubdtype(got.dtype, np.integer), "result %r" % (got,))
    total = int(np.prod(n_bins))
    exp = []
    for r, v in zip(F, ok):
        exp.append(lex(r, n_bins) if v and np.all(r < n_bins) else total)
    require(np.array_equal(got, exp), "numbers %r instead of %r for bins %r of %r" % (got, exp, F.tolist(), n_bins))
    # and back
    if 0 < total <= 20000:
        back = utils.arange_multi(n_bins)
        require(back.shape == (total, case["m"]), "enumeration has shape %r" % (back.shape,))
        allc = np.array(list(itertools.product(*[range(int(n)) for n in n_bins]))).reshape(total, case["m"])
        require(np.array_equal(back, allc), "enumeration of %r is %r" % (n_bins, back.tolist()[:8]))
        steps = utils.bin_steps(n_bins)
        require(
            np.array_equal(steps, [int(np.prod(n_bins[j:])) for j in range(case["m"] + 1)]),
            "bin steps %r of %r" % (steps, n_bins),
        )
        good = np.asarray(exp) < total
        require(np.array_equal(back[got[good]], np.floor(F[good])), "numbers cannot be converted back")
    ctx.label("dim%d" % case["m"])
    ctx.mark(len({e for e in exp if e < total}) > 1)


@st.composite
def matrices(draw):
    m = draw(st.integers(1, 4))
    # the largest numbers of combinations exceed 16 and 32 bits
    high = draw(st.sampled_from([130 if m <= 2 else 9, 130 if m <= 2 else 9, 4000 if m <= 2 else 400]))
    n_bins = [draw(st.integers(1, high)) for _ in range(m)]
    n = draw(st.integers(0, 25))
    rs = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    rows = []
    bad = draw(st.sampled_from([0.0, 0.1, 0.6, 1.0]))
    frac = draw(st.booleans())
    for _ in range(n):
        r = [float(rs.randint(0, k)) for k in n_bins]
        if frac and rs.uniform() < 0.3:
            r = [v + rs.choice([0.0, 0.25, 0.75]) for v in r]
        if rs.uniform() < bad:
            j = rs.randint(m)
            r[j] = rs.choice([np.nan, np.inf, -np.inf, -1.0, -7.0, float(n_bins[j]), n_bins[j] + 5.0])
        rows.append([None if np.isnan(v) else v for v in r])
    return {
        "m": m,
        "n_bins": n_bins,
        "rows": rows,
        "given": draw(st.booleans()),
        "steps": draw(st.booleans()),
        "frame": draw(st.booleans()),
        "dtype": draw(st.sampled_from(["float64", "float64", "int64", "int16", "float32"])),
    }


def check_interactions(case, ctx):
    names = case["names"]
    got = create_interactions(list(names), case["dim"])
    got_sets = sorted(tuple(sorted(t)) for t in got)
    exp = sorted(
        tuple(sorted(s)) for n in range(2, case["dim"] + 1) for s in itertools.combinations(sorted(names), n)
    )
    require(all(len(set(t)) == len(t) for t in got), "a term repeats a feature: %r" % (got,))
    require(got_sets == exp, "terms %r instead of %r" % (got_sets, exp))
    ctx.mark(len(exp) > 1)


def table(case):
    rs = np.random.RandomState(case["seed"])
    n = case["n"]
    d = {}
    for c, k in zip(case["names"], case["kinds"]):
        if k == "cat":
            v = rs.randint(0, 6, size=n).astype(float)
        elif k == "manycat":
            v = rs.randint(0, 200, size=n).astype(float)
        else:
            v = rs.normal(size=n)
        if case["missing"]:
            v[rs.uniform(size=n) < 0.1] = np.nan
        d[c] = v
    X = pd.DataFrame(d, index=rs.permutation(n) + 3 if case["seed"] % 2 else np.arange(n))
    props = {
        c: int(flags.IS_CONTINUOUS if k == "cont" else flags.IS_UNORDERED) | int(flags.HAS_MISSING)
        for c, k in zip(case["names"], case["kinds"])
    }
    return X, props, rs


def features_by_definition(X, props, terms, n_bins):
    B = BinNumberTransformer(n_bins=n_bins, feature_properties=props).fit_transform(X)
    out = {}
    for t in terms:
        M = B[list(t)].values.astype(float)
        ok = np.all(M >= 0, axis=1)
        nb = M[ok].max(axis=0).astype(int) + 1 if ok.any() else np.zeros(len(t), dtype=int)
        out[t] = np.array([lex(r, nb) if v else int(np.prod(nb)) for r, v in zip(M, ok)])
    return out


def check_build(case, ctx):
    X, props, rs = table(case)
    terms = create_interactions(case["names"], case["dim"])
    terms = [terms[i] for i in rs.permutation(len(terms))]
    keep = X.copy()
    kw = {} if case["n_bins"] == 100 and case["seed"] % 3 else {"number_of_bins": case["n_bins"]}
    F = build_binned_interaction_features(X, terms, props, **kw)
    require(X.equals(keep), "input changed")
    require(list(F.columns) == terms and len(F) == len(X), "columns %r, terms %r" % (list(F.columns), terms))
    exp = features_by_definition(X, props, terms, case["n_bins"])
    for t in terms:
        require(np.array_equal(F[t].values, exp[t]), "term %r: %r instead of %r" % (t, F[t].values[:8], exp[t][:8]))
    ctx.mark(len(terms) > 1)


def check_select(case, ctx):
    X, props, rs = table(case)
    y = rs.normal(size=len(X)) + X.iloc[:, 0].fillna(0).values * X.iloc[:, 1].fillna(0).values
    cl = case["classification"]
    if cl:
        classes = 2 + case["seed"] % 4
        y = rs.permutation(classes)[np.searchsorted(np.quantile(y, np.arange(1, classes) / classes), y)]
        if len(np.unique(y)) < 2:
            raise Discard("one class")
    terms = create_interactions(list(props), case["dim"])
    k = 1 + case["seed"] % len(terms)
    got = select_interaction_terms_anova(X, y, props, case["dim"], k, classification=cl)
    exp = features_by_definition(X, props, terms, 100)
    F = np.column_stack([exp[t] for t in terms]).astype(float)
    score = np.asarray((f_classif if cl else f_regression)(F, y)[0], dtype=float)
    if not np.all(np.isfinite(score)):
        raise Discard("undefined scores")
    got = [tuple(t) for t in got]
    require(len(got) == k and len(set(got)) == k, "%d terms selected instead of %d" % (len(got), k))
    require(set(got) <= set(terms), "unknown terms in %r" % (got,))
    s = dict(zip(terms, score))
    low = min(s[t] for t in got)
    high = max([s[t] for t in terms if t not in got], default=-np.inf)
    require(low >= high - 1e-9 * (1 + abs(high)), "selected %r although a better term was left out: %r" % (got, s))
    ctx.mark(len(terms) > k)


@st.composite
def inter(draw):
    names = draw(st.lists(st.sampled_from("abcdefgh"), min_size=0, max_size=7, unique=True))
    return {"names": names, "dim": draw(st.integers(1, 6))}


@st.composite
def tabs(draw):
    m = draw(st.integers(2, 4))
    return {
        "names": [["a", "b", "c", "d"][i] for i in range(m)],
        "kinds": [draw(st.sampled_from(["cat", "cont", "manycat"])) for _ in range(m)],
        "n": draw(st.sampled_from([20, 60, 400])),
        "dim": draw(st.integers(2, 3)),
        "missing": draw(st.booleans()),
        "n_bins": draw(st.sampled_from([100, 5, 12])),
        "seed": draw(st.integers(0, 2**31 - 1)),
        "classification": draw(st.booleans()),
    }


SUBS = [
    Sub("numbers", matrices, check_numbers, 5000, shrink_rows=False),
    Sub("interactions", inter, check_interactions, 1500, shrink_rows=False),
    Sub("build", tabs, check_build, 400, shrink_rows=False),
    Sub("select", tabs, check_select, 400, shrink_rows=False),
]
