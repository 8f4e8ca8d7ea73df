"""Generators and oracles shared by the checks of the binning step (C05, C20, C21, C22).

A case is a table of columns with declared properties:

  cols     {name: values}   (null/NaN, infinities and magic values allowed)
  dtypes   {name: dtype}    dtype of the column in the training table
  props    {name: flags} or None (all continuous)
  w        weights or None
  n_bins   int or {name: int}
  tol, eps constructor parameters
  form     "frame" or "array"
"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from cyclic_boosting import flags

NAN = float("nan")
INT_DTYPES = ["int8", "int16", "int32", "int64", "uint8"]
KINDS = ["ints", "floats", "ties", "const", "tiny", "huge", "wide", "skew", "bools", "grid"]
FLAGS = [
    flags.IS_CONTINUOUS,
    flags.IS_CONTINUOUS | flags.HAS_MISSING,
    flags.IS_UNORDERED,
    flags.IS_ORDERED | flags.MISSING_NOT_LEARNED,
    flags.IS_MONOTONIC | flags.INCREASING,
    flags.IS_LINEAR | flags.IS_CONTINUOUS,
    flags.IS_SEASONAL | flags.IS_CONTINUOUS,
    flags.IS_CONTINUOUS | flags.HAS_MAGIC_INT_MISSING,
    flags.IS_UNORDERED | flags.HAS_MAGIC_INT_MISSING,
    flags.IS_ORDERED | flags.HAS_MAGIC_INT_MISSING,
]


def values(rs, kind, n):
    if kind == "ints":
        return rs.randint(-20, 100, size=n).astype(float)
    if kind == "bools":
        return rs.randint(0, 2, size=n).astype(float)
    if kind == "floats":
        return rs.normal(size=n)
    if kind == "ties":
        return np.round(rs.normal(size=n), 1)
    if kind == "const":
        return np.full(n, rs.choice([0.0, -3.5, 1e7]))
    if kind == "tiny":
        return rs.normal(size=n) * 1e-9
    if kind == "huge":
        return np.round(rs.normal(size=n) * 1e6) * 1e6
    if kind == "wide":
        return np.sign(rs.normal(size=n)) * 10.0 ** rs.uniform(-3, 6, size=n)
    if kind == "skew":
        v = np.floor(rs.exponential(size=n) * 3)
        v[rs.uniform(size=n) < 0.6] = 0.0
        return v
    return 100 + 0.1 * rs.randint(0, 30, size=n)


@st.composite
def tables(draw, max_rows=200, weights=True, magic=True, max_cols=3, ints=True):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, max_rows)))
    ncol = draw(st.integers(1, max_cols))
    rs = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    cols, dtypes, props = {}, {}, {}
    for name in ["a", "b", "c", "d"][:ncol]:
        kind = draw(st.sampled_from(KINDS))
        v = values(rs, kind, n)
        f = draw(st.sampled_from(FLAGS if magic else [x for x in FLAGS if not flags.has_magic_missing_set(x)]))
        dt = "float64"
        if ints and kind in ("ints", "bools", "skew") and draw(st.booleans()):
            dt = draw(st.sampled_from(INT_DTYPES + (["bool"] if kind == "bools" else [])))
            if dt == "uint8":
                v = np.abs(v)
            v = np.clip(v, -120, 120)
        if flags.has_magic_missing_set(f) and dt != "uint8" and dt != "bool":
            m = rs.uniform(size=n) < 0.3
            v[m] = rs.choice([-9.0, -999.0] if dt not in ("int8",) else [-9.0], size=int(m.sum()))
        elif draw(st.integers(0, 3)) == 0 and dt == "float64":
            v[rs.uniform(size=n) < 0.2] = rs.choice([-9.0, -999.0, -1.0])
        if dt == "float64":
            what = draw(st.sampled_from(["none", "nan", "nan", "inf", "all"]))
            m = rs.uniform(size=n) < draw(st.sampled_from([0.05, 0.5]))
            if what == "nan":
                v[m] = NAN
            elif what == "inf":
                v[m] = rs.choice([NAN, np.inf, -np.inf], size=int(m.sum()))
            elif what == "all" and draw(st.integers(0, 2)) == 0:
                v[:] = NAN
            if draw(st.integers(0, 5)) == 0 and what == "none" and kind not in ("wide", "huge"):
                dt = "float32"
                v = v.astype("float32").astype(float)
        cols[name], dtypes[name], props[name] = v.tolist(), dt, int(f)
    if draw(st.integers(0, 3)) == 0:
        props = None
    elif ncol > 1 and draw(st.integers(0, 2)) == 0:
        props.pop(draw(st.sampled_from(sorted(props))))
    w = None
    if weights and draw(st.integers(0, 1)):
        wk = draw(st.sampled_from(["int", "zeros", "real"]))
        if wk == "int":
            w = rs.randint(1, 5, size=n).astype(float)
        elif wk == "zeros":
            w = rs.randint(0, 3, size=n).astype(float)
            w[rs.randint(n)] = 1.0
        else:
            w = np.round(10 ** rs.uniform(-2, 2, size=n), 6)
        w = (w * draw(st.sampled_from([1.0, 1.0, 1.0, 2.0**-30, 2.0**20]))).tolist()
    if draw(st.booleans()):
        n_bins = draw(st.integers(2, 12))
    else:
        n_bins = {c: draw(st.sampled_from([2, 3, 5, 10, 100, 300])) for c in cols}
    case = {
        "cols": cols,
        "dtypes": dtypes,
        "props": props,
        "w": w,
        "n_bins": n_bins,
        "tol": draw(st.sampled_from([0.1, 0.1, 0.0, 0.05, 0.3])),
        "eps": draw(st.sampled_from([1e-9, 1e-9, 1e-8])),
        "form": draw(st.sampled_from(["frame", "frame", "array"])),
        "wpos": draw(st.integers(0, ncol)),
        "seed2": draw(st.integers(0, 2**31 - 1)),
    }
    if case["form"] == "array":
        # one dtype for the whole array
        if len(set(dtypes.values())) > 1 or w is not None:
            case["dtypes"] = {c: "float64" for c in cols}
    case["row_keys"] = ["cols_." + c for c in cols]
    del case["row_keys"]
    return case


def names(case):
    """Column names in order, the weight column at its position."""
    out = list(case["cols"])
    if case["w"] is not None:
        out.insert(case["wpos"], "W")
    return out


def label(case, name):
    return names(case).index(name) if case["form"] == "array" else name


def column(case, name, vals=None):
    if name == "W":
        return np.asarray(case["w"], dtype=float)
    v = np.array([NAN if x is None else x for x in (case["cols"][name] if vals is None else vals)], dtype=float)
    return v


def table(case):
    if case["form"] == "array":
        dts = [case["dtypes"].get(c, "float64") for c in names(case)]
        return np.column_stack([column(case, c) for c in names(case)]).astype(dts[0] if len(set(dts)) == 1 else "float64")
    rs = np.random.RandomState(case["seed2"])
    n = len(next(iter(case["cols"].values())))
    index = [np.arange(n), rs.permutation(n) * 3 + 7, np.array(["r%d" % i for i in range(n)]), np.zeros(n, dtype=int)][
        case["seed2"] % 4
    ]
    return pd.DataFrame(
        {c: column(case, c).astype(case["dtypes"].get(c, "float64")) for c in names(case)}, index=index
    )


def transformer(case, cls, **kw):
    props = case["props"]
    if props is not None:
        props = {label(case, c): f for c, f in props.items()}
    n_bins = case["n_bins"]
    if isinstance(n_bins, dict):
        n_bins = {label(case, c): k for c, k in n_bins.items()}
    return cls(
        n_bins=n_bins,
        feature_properties=props,
        weight_column=label(case, "W") if case["w"] is not None else None,
        epsilon=case["eps"],
        tolerance=case["tol"],
        **kw,
    )


def prop_of(case, name):
    return flags.IS_CONTINUOUS if case["props"] is None else case["props"].get(name)


def declared(case):
    return [c for c in case["cols"] if prop_of(case, c) is not None]


def is_magic(case, name):
    return flags.has_magic_missing_set(prop_of(case, name))


def discrete(case, name):
    p = prop_of(case, name)
    return bool(p & (flags.IS_ORDERED | flags.IS_UNORDERED))


def distribution(case, name):
    """Distinct usable training values and their cumulative weight fractions, by definition."""
    v = column(case, name)
    if case["form"] == "frame" and case["dtypes"].get(name) == "float32":
        v = v.astype("float32").astype(float)
    w = np.ones(len(v)) if case["w"] is None else np.asarray(case["w"], dtype=float)
    ok = np.isfinite(v) & (w > 0)
    if is_magic(case, name):
        ok &= (v != -9) & (v != -999)
    v, w = v[ok], w[ok]
    u = np.unique(v)
    mass = np.array([np.sum(w[v == x]) for x in u])
    total = np.sum(w)
    return u, mass / total if len(u) else mass


def learned(case, tr):
    """{name: boundaries array or None} as learned by the transformer."""
    back = {label(case, c): c for c in case["cols"]}
    if hasattr(tr, "get_feature_bin_boundaries"):
        return {back[k]: v for k, v in tr.get_feature_bin_boundaries().items()}
    return {back[k]: v for k, _, v in tr.bins_and_cdfs_}
