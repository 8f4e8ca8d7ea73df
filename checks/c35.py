"""C35: analysis plots can be produced for every trained model without altering it."""
import copy
import io
import os
import re
import shutil
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from cbv import gen  # noqa: E402
from cbv.core import Discard, Sub, require  # noqa: E402
from checks import c31  # noqa: E402
from cyclic_boosting import pipelines, plots  # noqa: E402
from cyclic_boosting.observers import PlottingObserver  # noqa: E402
from cyclic_boosting.utils import ConvergenceError  # noqa: E402

PROPERTY = "C35"
RULE = (
    "a case is a trained model with plotting observers of the last and of an intermediate iteration; non-trivial = the "
    "report has at least one page for a feature whose bins have different factors"
)


def snapshot(obs):
    """Arrays and plain values an observer holds."""
    out = {"loss": list(obs.loss), "factor_change": list(obs.factor_change)}
    out["bins"] = {k: np.array(v).tolist() for k, v in obs.n_feature_bins.items()}
    out["hist"] = [None if h is None else copy.deepcopy(h) for h in obs.histograms]
    for i, f in enumerate(obs.features):
        for k, v in vars(f).items():
            if isinstance(v, (np.ndarray, list, float, int, str, tuple)):
                out["f%d.%s" % (i, k)] = copy.deepcopy(v)
    return out


def equal(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    try:
        return bool(np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True))
    except (TypeError, ValueError):
        return a is b or bool(np.all(a == b))


def unchanged(before, obs, what):
    after = snapshot(obs)
    for k in before:
        require(k in after and equal(before[k], after[k]), "%s changes %s of the observer" % (what, k))


def page_count(data):
    return len(re.findall(rb"/Type\s*/Page\b(?!s)", data))


def lines(ax):
    return [np.asarray(ln.get_ydata(), dtype=float) for ln in ax.get_lines()]


def shows(axes, values, tol=1e-7):
    values = np.asarray(values, dtype=float)
    for ax in axes:
        for v in lines(ax):
            if v.shape == values.shape and np.allclose(v, values, rtol=tol, atol=tol * max(1e-300, np.abs(values).max() if len(values) else 1)):
                return True
    return False


def levels_ok(case):
    """Targets the relative scales of the plots are defined for."""
    y = gen.target(case)
    w = np.asarray(case["w"], dtype=float) if case["w"] is not None else np.ones(len(y))
    X = gen.frame(case)
    for g in case["groups"] + (case["ext"] or []):
        v = X[list(g)].values
        if not (np.isfinite(v) & (v >= 0)).any(axis=0).all():
            continue  # a column without any value: the feature has no bins
        ok = np.all(np.isfinite(v) & (v >= 0), axis=1)
        if case["mode"] == "exponential":
            ok &= np.isfinite(X["PR"].values)
        if not ok.any() or not np.sum(w[ok]) > 0:
            return False
        if case["mode"] not in gen.ADD and not np.sum((w * y)[ok]) > 0:
            return False
    return True


def fit(case, obj, X):
    try:
        obj.fit(X, gen.target(case))
    except ConvergenceError:
        raise Discard("diverged")
    return obj


def report(obs, case, ctx, binners=None):
    """The report has one page per feature and leaves everything as it was."""
    rc = dict(matplotlib.rcParams)
    plt.close("all")
    before = snapshot(obs)
    n = len(list(obs.features))
    kw = dict(figsize=(6, 4), use_tightlayout=case["tight"], plot_yp=case["plot_yp"])
    if case["to_file"]:
        d = tempfile.mkdtemp(prefix="cbv-plots-")
        try:
            name = os.path.join(d, "report" + case["ending"])
            plots.plot_analysis(obs, name, binners=binners, **kw)
            require(sorted(os.listdir(d)) == ["report.pdf"], "files written: %r" % (sorted(os.listdir(d)),))
            with open(os.path.join(d, "report.pdf"), "rb") as f:
                data = f.read()
        finally:
            shutil.rmtree(d)
    else:
        buf = io.BytesIO()
        plots.plot_analysis(obs, buf, binners=binners, **kw)
        data = buf.getvalue()
    pages = n + 1 + (0 if case["mode"] == "nbinomc" else 1)
    require(page_count(data) == pages, "%d pages for %d features, expected %d" % (page_count(data), n, pages))
    require(plt.get_fignums() == [], "figures left open: %r" % (plt.get_fignums(),))
    now = dict(matplotlib.rcParams)
    require(all(rc[k] == now[k] for k in rc if k != "backend"), "global plot settings changed")
    unchanged(before, obs, "the report")
    ctx.label("pages", pages)


def check_report(case, ctx):
    if not levels_ok(case):
        raise Discard("target level")
    mode = case["mode"]
    last, early = PlottingObserver(), PlottingObserver(iteration=case["observed"])
    est = fit(case, gen.build(case, observers=[last, early]), gen.frame(case))
    X = gen.frame(case)
    pred = gen.raw_predict(case, est, X)
    if not np.isfinite(pred).all():
        raise Discard("predictions overflow")
    report(last, case, ctx)
    if case["observed"] < int(est.iteration_):
        report(early, case, ctx)
        ctx.label("intermediate iteration")
    require(np.array_equal(gen.raw_predict(case, est, X), pred), "the report changes the model")
    ctx.label("mode:" + mode)
    ctx.label("dims:%d" % max(len(g) for g in case["groups"]))
    con = est.get_feature_contributions(X)
    ctx.mark(any(len(np.unique(v)) > 1 for v in con.values()))


def check_content(case, ctx):
    """Single plot functions show the recorded values."""
    if not levels_ok(case):
        raise Discard("target level")
    mode = case["mode"]
    obs = PlottingObserver()
    est = fit(case, gen.build(case, observers=[obs]), gen.frame(case))
    X = gen.frame(case)
    if not np.isfinite(gen.raw_predict(case, est, X)).all():
        raise Discard("predictions overflow")
    before = snapshot(obs)
    rc = dict(matplotlib.rcParams)
    try:
        plt.close("all")
        fig = plt.figure(figsize=(6, 4))
        plots.plot_loss(obs)
        require(shows(fig.axes, obs.loss), "the loss plot does not show the losses %r" % (obs.loss,))
        plt.close("all")
        fig = plt.figure(figsize=(6, 4))
        plots.plot_factor_change(obs)
        require(shows(fig.axes, obs.factor_change), "the plot does not show the factor changes %r" % (obs.factor_change,))
        plt.close("all")
        fig = plt.figure(figsize=(6, 4))
        plots.plot_iteration_info(obs)
        require(shows(fig.axes, obs.loss) and shows(fig.axes, obs.factor_change), "the iteration plot is incomplete")
        if mode != "nbinomc":
            plt.close("all")
            fig = plt.figure(figsize=(6, 4))
            plots.plot_in_sample_diagonal_plot(obs)
            require(shows(fig.axes, np.asarray(obs.histograms[0], dtype=float)), "the diagonal plot does not show the means")
        plt.close("all")
        fig = plt.figure(figsize=(8, 8))
        plots.plot_factors(obs, use_tightlayout=False, features_per_row=case["per_row"], plot_yp=case["plot_yp"])
        plt.close("all")
        plt.figure(figsize=(8, 8))
        some = [f.feature_id for f in list(obs.features)[: case["per_row"]]]
        plots.plot_factors(obs, feature_groups_or_ids=some, use_tightlayout=False, features_per_row=1, plot_yp=case["plot_yp"])
        for f in obs.features:
            g = tuple(f.feature_group)
            key = " ".join(g) + ("_external" if f.feature_type is not None else "")
            size = [int(s) for s in np.atleast_1d(obs.n_feature_bins[g])]
            cells = [list(map(float, c)) for c in np.ndindex(*size)] + [[np.nan] * len(g)]
            T = X.iloc[np.zeros(len(cells), dtype=int)].reset_index(drop=True)
            for j, c in enumerate(g):
                T[c] = [t[j] for t in cells]
            con = est.get_feature_contributions(T)[key]
            plt.close("all")
            fig = plt.figure(figsize=(6, 4))
            if len(g) == 1:
                plots.plot_factor_1d(f, link_function=obs.link_function, plot_yp=case["plot_yp"])
                finite = con[:-1] if len(con) > 1 else con
                # a histogram is drawn for very many bins
                require(
                    len(con) > 400 or shows(fig.axes, finite) or shows(fig.axes, con),
                    "the plot of %r does not show the contributions %r" % (g, con),
                )
                ctx.label("1-D content")
            elif len(g) == 2:
                plots.plot_factor_2d(obs.n_feature_bins[g], f)
                table = gen.link(mode, con[:-1]).reshape(size)
                scale = max(1e-9, np.abs(table).max() if table.size else 0)
                found = [
                    im for ax in fig.axes for im in ax.get_images()
                    if im.get_array().shape == table.T.shape and np.allclose(im.get_array(), table.T, rtol=1e-7, atol=1e-7 * scale)
                ]
                require(found or not table.size, "the plot of %r does not show the contributions %r" % (g, table))
                ctx.label("2-D content")
            else:
                plots.plot_factor_high_dim(f)
                ctx.label("histogram")
    finally:
        plt.close("all")
    now = dict(matplotlib.rcParams)
    require(all(rc[k] == now[k] for k in rc if k != "backend"), "global plot settings changed")
    unchanged(before, obs, "plotting")
    ctx.label("mode:" + mode)
    con = est.get_feature_contributions(X)
    ctx.mark(any(len(np.unique(v)) > 1 for v in con.values()))


def check_pipeline(case, ctx):
    """Report with the binner of a pipeline, which labels the bins."""
    if not levels_ok(case):
        raise Discard("target level")
    obs = PlottingObserver()
    cls, kw = c31.settings(case, obs)
    pipe = getattr(pipelines, "pipeline_" + c31.NAMES[case["mode"]])(number_of_bins=case["n_bins"], **kw)
    X = c31.raw_frame(case, gen.frame(case), "cols")
    fit(case, pipe, X.copy())
    if not np.isfinite(np.asarray(pipe.predict(X.copy()))).all():
        raise Discard("predictions overflow")
    report(obs, case, ctx, binners=[pipe.steps[0][1]])
    ctx.label("mode:" + case["mode"])
    ctx.mark(True)


@st.composite
def settings(draw, base):
    case = draw(base)
    case["tight"] = draw(st.integers(0, 3)) == 0
    case["plot_yp"] = draw(st.integers(0, 2)) > 0
    case["to_file"] = draw(st.booleans())
    case["ending"] = draw(st.sampled_from(["", ".pdf"]))
    case["observed"] = draw(st.integers(1, 3))
    case["per_row"] = draw(st.integers(1, 3))
    return case


def problems(modes, **kw):
    return settings(gen.problems(modes=modes, hier=True, max_iter=4, kinds=("count", "real", "sparse", "count", "const"), **kw))


def stretch(case):
    """The bins of the first column become far apart, so that there are hundreds of them."""
    for which in ("cols", "pred"):
        name = sorted(case["cols"])[0]
        if case.get(which):
            case[which][name] = [v if v is None or not np.isfinite(v) or v < 0 else v * 150.0 for v in case[which][name]]
    return case


SUBS = [
    Sub("many", lambda: problems(["poisson", "location", "classifier", "exponential"], gaps=True, max_cols=2).map(stretch), check_report, 16),
    Sub("many_content", lambda: problems(["poisson", "location", "classifier"], gaps=True, max_cols=2).map(stretch), check_content, 16),
    Sub("report", lambda: problems(gen.ALL, gaps=True), check_report, 60),
    Sub("sparse", lambda: problems(["mquantile", "aquantile", "poisson", "location"], max_rows=12, weights=("int", "none")), check_report, 24),
    Sub("content", lambda: problems(gen.FAST + ["nbinomc", "exponential"], gaps=True), check_content, 50),
    Sub("pipeline", lambda: settings(c31.raw_cases(gen.FAST + ["exponential", "nbinomc"])), check_pipeline, 24),
]
