"""C33: statistical helpers equal their textbook definitions."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cyclic_boosting import utils

from cbv.core import Discard, Sub, require

PROPERTY = "C33"
RULE = (
    "a case is a helper with an input array (ties, single values, empty bins, missing bins, zero weights); "
    "non-trivial = at least three values that are not all equal"
)
Q1 = (1.0 - 0.6827) / 2
Q2 = (1.0 - 0.9545) / 2


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)))


def wquantile(y, w, q):
    """Acceptable weighted quantiles: smallest value whose cumulative weight reaches the level."""
    u = np.unique(y)
    cum = np.array([np.sum(w[y <= v]) for v in u])
    t = np.sum(w)
    # sums of such weights are exact, so is the comparison
    exact = all(float(v * 64).is_integer() for v in [q, *w])
    steps = (0,) if exact else (-1e-9 * t, 0, 1e-9 * t)
    return {float(u[np.nonzero(cum >= q * t + e)[0][0]]) for e in steps if np.any(cum >= q * t + e)}


def check_bins(case, ctx):
    b = np.array([np.nan if v is None else v for v in case["b"]], dtype=float)
    y, w = np.array(case["y"]), np.array(case["w"])
    weighted = case["weighted"] and len(np.unique(w)) > 1
    if not np.any(np.isfinite(b)):
        raise Discard("no bins")
    u = np.unique(b[np.isfinite(b)])
    if weighted and any(np.sum(w[b == k]) <= 0 for k in u):
        raise Discard("bin without weight")
    means, med, cnt, err = utils.calc_means_medians(b, y, w if weighted else None)
    if len(np.unique(w)) == 1 and w[0] > 0:
        # equal weights of any size
        same = utils.calc_means_medians(b, y, w)
        for k in u:
            yy = y[b == k]
            require(close(same[0][k], np.mean(yy)), "mean %r of %r with equal weights" % (same[0][k], yy))
            require(
                close(same[1][k], np.median(yy)) or float(same[1][k]) in wquantile(yy, np.ones(len(yy)), 0.5),
                "median %r of %r with equal weights" % (same[1][k], yy),
            )
        ctx.label("equal weights")
    for s in (means, med, cnt, *err):
        require(list(s.index) == list(u), "bins %r instead of %r" % (list(s.index), u))
    for k in u:
        yy, ww = y[b == k], w[b == k]
        if weighted:
            require(close(means[k], np.sum(yy * ww) / np.sum(ww)), "weighted mean %r of %r, %r" % (means[k], yy, ww))
            m = wquantile(yy, ww, 0.5)
            require(float(med[k]) in m, "weighted median %r of %r, %r" % (med[k], yy, ww))
            require(close(cnt[k], np.sum(ww)), "weighted count %r" % cnt[k])
            for e, q in zip(err, [Q1, 1 - Q1, Q2, 1 - Q2]):
                ok = wquantile(yy, ww, q)
                require(
                    any(close(e[k] + med[k], v) for v in ok),
                    "weighted quantile %r of %r, %r: %r" % (q, yy, ww, e[k] + med[k]),
                )
        else:
            require(close(means[k], np.mean(yy)), "mean %r of %r" % (means[k], yy))
            require(close(med[k], np.median(yy)), "median %r of %r" % (med[k], yy))
            require(cnt[k] == len(yy), "count %r of %r" % (cnt[k], yy))
            for e, q in zip(err, [Q1, 1 - Q1, Q2, 1 - Q2]):
                require(close(e[k] + med[k], np.quantile(yy, q)), "quantile %r of %r: %r" % (q, yy, e[k] + med[k]))
    if weighted:
        q = case["q"]
        got = utils.calc_weighted_quantile(b, y, w, q)
        for k in u:
            require(float(got[k]) in wquantile(y[b == k], w[b == k], q), "weighted quantile %r: %r" % (q, got[k]))
    ctx.label("weighted" if weighted else "plain")
    ctx.mark(len(y) > 2 and len(np.unique(y)) > 1)


def check_quantile(case, ctx):
    y, w, q = np.array(case["y"]), np.array(case["w"]), case["q"]
    if not np.sum(w) > 0:
        raise Discard("no weight")
    got = utils.continuous_quantile_from_discrete_pdf(y, q, w)
    t = np.sum(w)
    ok = []
    for v in wquantile(y, w, q):
        r = v
        hit = (y == v) & (w > 0)
        if np.sum(hit) > 1:
            r = v + (q * t - np.sum(w[y < v])) / np.sum(w[hit])
        ok.append(r)
    require(any(close(got, r, 1e-7) for r in ok), "quantile %r of %r, %r: %r instead of %r" % (q, y, w, got, ok))
    # never further than one unit from the discrete quantile, invariant to the order and the scale of the weights
    p = np.random.RandomState(len(y)).permutation(len(y))
    again = utils.continuous_quantile_from_discrete_pdf(y[p], q, w[p] * 4.0)
    if len(ok) == 1:
        require(close(got, again, 1e-7), "quantile depends on order or weight scale: %r, %r" % (got, again))
    ctx.mark(len(y) > 2 and len(np.unique(y)) > 1)


def check_std(case, ctx):
    y, w = np.array(case["y"]), np.array(case["w"])
    if not np.sum(w) > 0:
        raise Discard("no weight")
    got = utils.weighted_stddev(y, w)
    m = np.average(y, weights=w)
    exp = np.sqrt(np.average((y - m) ** 2, weights=w))
    require(close(got, exp, 1e-7), "standard deviation %r instead of %r" % (got, exp))
    ctx.mark(len(y) > 2 and len(np.unique(y)) > 1)


def check_linear_bins(case, ctx):
    y, k = np.array(case["y"]), case["k"]
    b, c = utils.calc_linear_bins(y, k)
    width = (y.max() - y.min()) / k
    require(close(b, y.min() + width * np.arange(k + 1), 1e-9 * (1 + np.abs(y).max())), "boundaries %r" % (b,))
    require(close(c, y.min() + width * (np.arange(k) + 0.5), 1e-9 * (1 + np.abs(y).max())), "centres %r" % (c,))
    edges = np.unique(np.round(b, 9))
    if len(edges) > 1:
        x = np.concatenate([y, edges, [edges[0] - 1, edges[-1] + 1]])
        d = utils.digitize(x, edges)
        exp = [int(np.sum(edges <= v)) if v < edges[-1] else len(edges) - 1 for v in x]
        require(np.array_equal(d, exp), "digits %r instead of %r for %r in %r" % (d, exp, x, edges))
    ctx.mark(len(y) > 2 and len(np.unique(y)) > 1)


def check_regularize(case, ctx):
    y, s, t = np.array(case["y"]), np.array(case["s"]), case["t"]
    p = np.array(case["p"]) if case["vec"] else case["p"][0]
    got = utils.regularize_to_prior_expectation(y, s, p, **({} if t is None else {"threshold": t}))
    t = 2.5 if t is None else t
    sig = (y - p) / s
    exp = np.where(np.abs(sig) > t, p + s * np.sign(sig) * np.sqrt(np.maximum(sig**2 - t**2, 0)), p)
    edge = np.abs(np.abs(sig) - t) < 1e-9 * t
    require(close(got[~edge], exp[~edge], 1e-9), "regularised %r instead of %r" % (got, exp))
    pv = p * np.ones(len(y))
    lo, hi = np.minimum(y, pv), np.maximum(y, pv)
    require(np.all((got >= lo - 1e-9 * (1 + np.abs(lo))) & (got <= hi + 1e-9 * (1 + np.abs(hi)))), "outside value and prior")

    # error weighted mean
    if len(np.unique(y)) > 1 or len(y) == 1:
        got = utils.regularize_to_error_weighted_mean(y.copy(), s)
        if len(y) == 1:
            require(np.array_equal(got, y), "single value regularised to %r" % (got,))
        else:
            w = 1 / s**2
            m = np.sum(w * y) / np.sum(w)
            v = np.sum(w * (y - m) ** 2) / np.sum(w)
            exp = (w * y + m / v) / (w + 1 / v)
            require(close(got, exp, 1e-8), "error weighted mean %r instead of %r" % (got, exp))
    m = float(case["p"][0])
    got = utils.regularize_to_error_weighted_mean(y.copy(), s, prior_prediction=m)
    if np.max(np.abs(y - m)) > 1e-3 * (1 + abs(m)):
        w = 1 / s**2
        v = np.sum(w * (y - m) ** 2) / np.sum(w)
        exp = (w * y + m / v) / (w + 1 / v)
        require(close(got, exp, 1e-8), "regularised to the prior %r instead of %r" % (got, exp))

    # sliding window
    k = case["window"]
    if len(y) >= max(k, 3):
        got = utils.regularize_to_error_weighted_mean_neighbors(y.copy(), s, window_size=k)
        h = (k - 1) // 2
        for i in range(len(y)):
            a, b = max(0, i - h), min(len(y), i + h + 1)
            w = 1 / s[a:b] ** 2
            m = np.sum(w * y[a:b]) / np.sum(w)
            v = np.sum(w * (y[a:b] - m) ** 2) / np.sum(w)
            if v > 1e-12 * (1 + m * m):
                exp = (y[i] / s[i] ** 2 + m / v) / (1 / s[i] ** 2 + 1 / v)
            else:
                exp = m
            require(close(got[i], exp, 1e-6), "window around %d of %r: %r instead of %r" % (i, y, got[i], exp))
    for bad in (np.ones(len(y) + 1), np.ones(max(len(y) - 1, 0))):
        for f in (utils.regularize_to_error_weighted_mean, utils.regularize_to_error_weighted_mean_neighbors):
            try:
                f(y, bad)
            except ValueError:
                continue
            require(False, "%s accepts %d values with %d uncertainties" % (f.__name__, len(y), len(bad)))
    ctx.mark(len(y) > 2 and len(np.unique(y)) > 1)


def check_neutralize(case, ctx):
    rs = np.random.RandomState(case["seed"])
    n, m = case["n"], case["m"]
    V = rs.normal(size=(n, m)) * case["scale"] + rs.normal(size=(n, 1)) + rs.normal(size=(1, m))
    U = np.ones((n, m)) * rs.uniform(0.5, 2.0)
    if case["structure"] == "product":
        U = np.outer(rs.uniform(0.2, 3.0, size=n), rs.uniform(0.2, 3.0, size=m))
    elif case["structure"] == "any":
        U = rs.uniform(0.2, 3.0, size=(n, m))
    V0 = V.copy()
    R = utils.neutralize_one_dim_influence(V, U)
    require(np.array_equal(V, V0), "input changed")
    D = V - R
    # what is removed is a row effect plus a column effect
    rest = D - D.mean(axis=1, keepdims=True) - D.mean(axis=0, keepdims=True) + D.mean()
    require(np.max(np.abs(rest)) <= 1e-9 * (1 + np.abs(V).max()), "removed more than one-dimensional effects: %r" % D)
    rows, cols = np.sum(R * U, axis=1), np.sum(R * U, axis=0)
    big = np.sum(np.abs(V) * U)
    require(np.max(np.abs(cols)) <= 1e-9 * (1 + big), "column effects left: %r" % cols)
    if case["structure"] != "any":
        require(np.max(np.abs(rows)) <= 1e-9 * (1 + big), "row effects left: %r" % rows)
    else:
        start = np.sum(np.abs(np.sum(V0 * U, axis=1)))
        require(
            np.sum(np.abs(rows)) <= max(0.011, 0.3 * (1 + start)), "row effects left: %r, initially %r" % (rows, start)
        )
    ctx.label(case["structure"])
    ctx.mark(n > 1 and m > 1)


def check_regression(case, ctx):
    x, y, w = np.array(case["x"]), np.array(case["y"]), np.array(case["w"]) + 0.25
    if len(np.unique(x)) < 2:
        raise Discard("one position")
    a, b = utils.linear_regression(x, y, w)
    A = np.column_stack([np.ones(len(x)), x]) * np.sqrt(w)[:, None]
    sol = np.linalg.lstsq(A, y * np.sqrt(w), rcond=None)[0]
    scale = 1 + np.abs(y).max()
    require(
        abs(a - sol[0]) <= 1e-6 * scale and abs(b - sol[1]) <= 1e-6 * scale,
        "line %r, %r instead of %r" % (a, b, sol),
    )
    ctx.mark(len(x) > 2)


def check_normalize(case, ctx):
    v = case["v"]
    got = utils.get_normalized_values(list(v))
    t = sum(v)
    require(len(got) == len(v), "%d values" % len(got))
    if abs(t) > 1e-5:
        require(close(got, np.array(v) / t), "normalised %r to %r" % (v, got))
    elif t == 0:
        require(list(got) == list(v), "normalised %r to %r" % (v, got))
    ctx.mark(len(v) > 2)


def check_masks(case, ctx):
    M = np.array([[np.nan if v is None else v for v in r] for r in case["rows"]], dtype=float)
    M = M.reshape(len(case["rows"]), case["m"])
    arg = pd.DataFrame(M) if case["frame"] else M
    ok = np.array([all(np.isfinite(v) and v >= 0 for v in r) for r in M], dtype=bool)
    got = utils.slice_finite_semi_positive(arg)
    require(np.array_equal(got, ok), "finite rows %r instead of %r" % (got, ok))
    got = utils.slice_finite_semi_positive(M[:, 0])
    require(np.array_equal(got, np.isfinite(M[:, 0]) & (M[:, 0] >= 0)), "finite values %r" % (got,))
    nb = np.array(case["n_bins"], dtype=np.int64)
    total = int(np.prod(nb))
    rs = np.random.RandomState(case["seed"])
    wx = rs.randint(0, 2, size=total + case["seed"] % 2).astype(float)
    nanw = wx[total] if len(wx) > total else 0.0
    exp = []
    for r, v in zip(M, ok):
        if v and np.all(r < nb):
            k = 0
            for a, n in zip(r, nb):
                k = k * int(n) + int(a)
            exp.append(wx[k] == 0)
        else:
            exp.append(nanw == 0)
    got = utils.not_seen_events(arg, wx.copy(), nb)
    require(np.array_equal(got, exp), "unseen rows %r instead of %r; rows %r weights %r" % (got, exp, M.tolist(), wx))
    require(np.isnan(utils.nans(3)).all() and utils.nans((2, 2)).shape == (2, 2), "nans")
    ctx.mark(len(M) > 2)


VAL = st.one_of(st.integers(-5, 20).map(float), st.integers(-4000, 4000).map(lambda v: v / 8.0), st.floats(-1e4, 1e4))
WGT = st.sampled_from([0.0, 0.25, 1.0, 1.0, 2.0, 3.5])


@st.composite
def arrays(draw, min_size=1):
    n = draw(st.integers(min_size, 25))
    y = draw(st.lists(draw(st.sampled_from([VAL, st.integers(0, 4).map(float)])), min_size=n, max_size=n))
    return {
        "y": y,
        "w": draw(st.lists(WGT, min_size=n, max_size=n)),
        "x": draw(st.lists(st.integers(-20, 20).map(float), min_size=n, max_size=n)),
        "b": draw(st.lists(st.one_of(st.integers(0, 4).map(float), st.none()), min_size=n, max_size=n)),
        "q": draw(st.sampled_from([0.5, 0.25, 0.1, 0.9, 0.01, 0.99, 0.333])),
        "k": draw(st.integers(1, 9)),
        "weighted": draw(st.booleans()),
    }


@st.composite
def reg(draw):
    n = draw(st.integers(1, 12))
    v = st.integers(-80, 80).map(lambda k: k / 4.0)
    return {
        "y": draw(st.lists(v, min_size=n, max_size=n)),
        "s": draw(st.lists(st.sampled_from([0.1, 0.5, 1.0, 4.0, 20.0]), min_size=n, max_size=n)),
        "p": draw(st.lists(v, min_size=n, max_size=n)),
        "t": draw(st.sampled_from([None, 1.0, 2.5, 0.3])),
        "vec": draw(st.booleans()),
        "window": draw(st.sampled_from([3, 3, 5])),
    }


@st.composite
def neut(draw):
    return {
        "n": draw(st.integers(1, 6)),
        "m": draw(st.integers(1, 6)),
        "scale": draw(st.sampled_from([0.0, 0.1, 1.0, 10.0])),
        "structure": draw(st.sampled_from(["flat", "product", "any"])),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


@st.composite
def masks(draw):
    m = draw(st.integers(1, 3))
    n_bins = [draw(st.integers(1, 4)) for _ in range(m)]
    e = st.one_of(st.integers(0, 5).map(float), st.sampled_from([None, -1.0, float("inf")]))
    return {
        "m": m,
        "n_bins": n_bins,
        "rows": draw(st.lists(st.lists(e, min_size=m, max_size=m), min_size=1, max_size=12)),
        "frame": draw(st.booleans()),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


SUBS = [
    Sub("bins", arrays, check_bins, 500, shrink_rows=False),
    Sub("quantile", arrays, check_quantile, 2500, shrink_rows=False),
    Sub("stddev", arrays, check_std, 800, shrink_rows=False),
    Sub("linear_bins", arrays, check_linear_bins, 1500, shrink_rows=False),
    Sub("regularize", reg, check_regularize, 2500, shrink_rows=False),
    Sub("neutralize", neut, check_neutralize, 1500, shrink_rows=False),
    Sub("regression", lambda: arrays(2), check_regression, 1500, shrink_rows=False),
    Sub("normalize", lambda: st.fixed_dictionaries({"v": st.lists(st.one_of(st.just(0.0), st.floats(0, 100)), max_size=8)}),
        check_normalize, 1000, shrink_rows=False),
    Sub("masks", masks, check_masks, 2500, shrink_rows=False),
]
