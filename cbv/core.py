"""Runner for the property checks.

A check module (``checks/cXX.py``) exposes ``PROPERTY``, ``RULE`` and ``SUBS``.
Each sub-check generates JSON-serialisable cases with Hypothesis and decides
each case with an explicit oracle.  The runner splits the requested number of
cases into a fixed number of shards with seeds derived from VERIF_SEED, runs
the shards in forked worker processes, minimises a failing case and writes a
replay file that can be executed without Hypothesis.
"""
import hashlib
import importlib
import json
import math
import os
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CBV_REPO", "/repo")
SHARDS = 8


class Violation(Exception):
    """The property does not hold for the current case."""


class Discard(Exception):
    """The case does not satisfy the preconditions of the property."""


class Ctx:
    """Measurements of one shard."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.discards = {}
        self.samples = {}
        self.time_skipped = 0
        self._mark = False
        self.frozen = False

    def label(self, name, n=1):
        if self.frozen:
            return
        self.labels[name] = self.labels.get(name, 0) + n

    def mark(self, nontrivial=True):
        """Declare the current case non-trivial (by the rule of the check)."""
        if nontrivial:
            self._mark = True


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, shrink_rows=True, shards=SHARDS):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shrink_rows = shrink_rows
        self.shards = shards


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def jdump(obj):
    return json.dumps(obj, sort_keys=True, default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def _compact(obj, limit=12):
    if isinstance(obj, dict):
        return {str(k): _compact(v, limit) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        if len(obj) > limit:
            return [_compact(v, limit) for v in obj[:limit]] + ["... %d values" % len(obj)]
        return [_compact(v, limit) for v in obj]
    if isinstance(obj, float) and not math.isfinite(obj):
        return str(obj)
    return obj


def from_library(exc):
    """Does the traceback of ``exc`` pass through the code under test?"""
    tb = exc.__traceback__
    pkg = os.path.join(os.path.realpath(REPO), "cyclic_boosting") + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def execute(sub, case, ctx):
    """Run one case. Returns normally, or raises Violation / harness errors."""
    import numpy as np

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                sub.check(case, ctx)
    except (Violation, Discard):
        raise
    except Exception as exc:  # noqa: B902
        if from_library(exc):
            last = traceback.extract_tb(exc.__traceback__)[-1]
            raise Violation(
                "unexpected %s from the library: %s (%s:%s)"
                % (type(exc).__name__, str(exc)[:300], os.path.basename(last.filename), last.name)
            ) from exc
        raise


def derive_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def quiet():
    import logging

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def run_shard(prop, sub, shard, n, seed, deadline, stop_path_):
    """Explore ``n`` cases of ``sub``; returns a dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 45
    # failing cases are re-run as they are: no database, no deadlines

    stop_path = stop_path_ + ("." + sub.name if os.environ.get("CBV_KEEP_GOING") else "")
    ctx = Ctx()
    # the first examples of a run are mostly minimal ones: short runs pass over all but the very first
    skip = 10 if n < 100 else 0
    first = 1 if shard == 0 else 0
    state = {"fail": None, "msg": None, "phase": "gen", "harness": None, "calls": 0}

    def body(case):
        if state["fail"] is None:
            state["calls"] += 1
            if first < state["calls"] <= first + skip:
                return
            if time.time() > deadline or os.path.exists(stop_path):
                ctx.time_skipped += 1
                return
            ctx._mark = False
        try:
            if state["fail"] is None:
                ctx.evaluations += 1
            execute(sub, case, ctx)
        except Discard as d:
            if state["fail"] is None:
                key = str(d)
                ctx.discards[key] = ctx.discards.get(key, 0) + 1
            return
        except Violation as v:
            state["fail"] = json.loads(jdump(case))
            state["msg"] = str(v)
            ctx.frozen = True
            raise
        if state["fail"] is None and ctx._mark:
            key = hashlib.sha256(jdump(case).encode()).hexdigest()[:16]
            if key not in ctx.nontrivial:
                ctx.nontrivial.add(key)
                lst = ctx.samples.setdefault(sub.name, [])
                if len(lst) < 1:
                    lst.append(_compact(json.loads(jdump(case))))

    test = hypothesis.given(sub.strategy())(body)
    test = settings(
        max_examples=n + skip,
        database=None,
        deadline=None,
        derandomize=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(derive_seed("cbv", seed, prop, sub.name, shard))(test)
    try:
        test()
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        if state["fail"] is None:
            raise
    except hypothesis.errors.HypothesisException:
        if state["fail"] is None:
            raise
    if state["fail"] is not None:
        with open(stop_path, "w") as f:
            f.write("stop")
    return {
        "evaluations": ctx.evaluations,
        "nontrivial": sorted(ctx.nontrivial),
        "labels": ctx.labels,
        "discards": ctx.discards,
        "samples": ctx.samples,
        "time_skipped": ctx.time_skipped,
        "fail": state["fail"],
        "msg": state["msg"],
    }


def _worker(prop, module, jobs, seed, deadline, stop_path, out_path):
    quiet()
    mod = importlib.import_module(module)
    subs = {s.name: s for s in mod.SUBS}
    res = []
    for name, shard, n in jobs:
        try:
            r = run_shard(prop, subs[name], shard, n, seed, deadline, stop_path)
        except BaseException as exc:  # noqa: B902
            r = {"error": "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:]}
            with open(stop_path, "w") as f:
                f.write("stop")
        r["sub"] = name
        r["shard"] = shard
        res.append(r)
    with open(out_path, "w") as f:
        f.write(jdump(res))


def _rows(case):
    """Row-aligned lists of a case, as listed by its 'row_keys' entry."""
    return case.get("row_keys")


def _get(case, path):
    o = case
    for p in path:
        o = o[p]
    return o


def _set(case, path, val):
    o = case
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = val


def ddmin_rows(sub, case, msg, budget=30.0):
    """Remove rows of a failing case while it keeps failing."""
    keys = _rows(case)
    if not keys:
        return case, msg
    t0 = time.time()
    paths = [k.split(".") for k in keys]

    def sub_case(idx):
        c = json.loads(jdump(case))
        for p in paths:
            v = _get(c, p)
            if v is not None:
                _set(c, p, [v[i] for i in idx])
        return c

    n = None
    for p in paths:
        v = _get(case, p)
        if v is not None:
            n = len(v)
            break
    if n is None:
        return case, msg
    idx = list(range(n))
    chunk = max(1, len(idx) // 2)
    best, best_msg = case, msg
    while chunk >= 1 and time.time() - t0 < budget:
        i = 0
        changed = False
        while i < len(idx) and time.time() - t0 < budget:
            cand = idx[:i] + idx[i + chunk :]
            if not cand:
                i += chunk
                continue
            c = sub_case(cand)
            if "cols" in c:
                from cbv import gen

                if not gen.valid_problem(c, case):
                    i += chunk
                    continue
            try:
                execute(sub, c, Ctx())
                ok = True
            except Violation as v:
                ok, m = False, str(v)
            except Discard:
                ok = True
            except Exception:  # noqa: B902
                ok = True
            if not ok:
                idx = cand
                best, best_msg = c, m
                changed = True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        chunk = chunk // 2 if chunk > 1 else (1 if changed else 0)
    return best, best_msg


def known_findings(prop):
    """Entries ``known: property=<id> key=<key> <text>`` of KNOWN_FINDINGS."""
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line[len("known: property=%s " % prop) :]
                key, _, text = rest.partition(" ")
                out[key.replace("key=", "")] = text
    return out


def main(prop, argv=None):
    import multiprocessing

    t0 = time.time()
    argv = sys.argv[2:] if argv is None else argv
    module = "checks.%s" % prop.lower()
    quiet()
    try:
        mod = importlib.import_module(module)
    except Exception as exc:  # noqa: B902
        if from_library(exc):
            print("library import failed:\n" + traceback.format_exc())
            print("VIOLATION property=%s replay=none" % prop)
            return 1
        raise
    if argv and argv[0] == "--replay":
        return replay(prop, mod, argv[1])

    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cap = getattr(mod, "TIME_CAP", {}).get(tier, 300 if tier == "quick" else 3000)
    deadline = t0 + cap
    scale = float(os.environ.get("CBV_SCALE", "1"))

    jobs = []
    only = os.environ.get("CBV_ONLY")
    for sub in mod.SUBS:
        if only and sub.name not in only.split(","):
            continue
        total = max(1, int((sub.quick if tier == "quick" else sub.thorough) * scale))
        k = min(sub.shards, total)
        for s in range(k):
            jobs.append((sub.name, s, total // k + (1 if s < total % k else 0)))

    nproc = int(os.environ.get("CBV_PROCS", "0")) or min(SHARDS, os.cpu_count() or 1)
    # distribute the jobs round robin; the assignment does not influence results
    buckets = [[] for _ in range(nproc)]
    for i, j in enumerate(jobs):
        buckets[(j[1] + i // SHARDS) % nproc].append(j)
    buckets = [b for b in buckets if b]

    results = []
    with tempfile.TemporaryDirectory(prefix="cbv-") as tmp:
        stop_path = os.path.join(tmp, "stop")
        mp = multiprocessing.get_context("fork")
        procs = []
        for i, b in enumerate(buckets):
            out = os.path.join(tmp, "out%d.json" % i)
            p = mp.Process(target=_worker, args=(prop, module, b, seed, deadline, stop_path, out))
            p.start()
            procs.append((p, out))
        for p, out in procs:
            p.join()
            if os.path.exists(out):
                results.extend(json.load(open(out)))
            else:
                results.append({"error": "worker died with exit code %s" % p.exitcode, "sub": "?", "shard": -1})

    errors = [r for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    fails = [r for r in good if r["fail"] is not None]
    known = known_findings(prop)

    subs = {s.name: s for s in mod.SUBS}
    violations = 0
    lines = []
    known_hits = {}
    real = []
    for r in sorted(fails, key=lambda r: (r["sub"], r["shard"])):
        key = getattr(mod, "known_key", lambda *a: None)(r["sub"], r["fail"], r["msg"])
        if key is not None and key in known:
            known_hits[key] = known[key]
        else:
            real.append(r)
    if real:
        # one report per sub-check
        seen = set()
        for r in real:
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            violations += 1
            case, msg = r["fail"], r["msg"]
            if subs[r["sub"]].shrink_rows:
                case, msg = ddmin_rows(subs[r["sub"]], case, msg)
            d = os.environ.get("CBV_REPLAYS") or os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            h = hashlib.sha256(jdump(case).encode()).hexdigest()[:10]
            path = os.path.join(d, "%s-%s-%s.json" % (prop, r["sub"], h))
            with open(path, "w") as f:
                f.write(jdump({"property": prop, "sub": r["sub"], "message": msg, "case": case}))
            print("%s/%s: %s" % (prop, r["sub"], msg))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))

    # deterministic known findings are re-checked directly by the module
    for key, fn in getattr(mod, "KNOWN_PROBES", {}).items():
        if key in known:
            try:
                execute(Sub(key, None, lambda c, x, fn=fn: fn(), 1), None, Ctx())
            except Violation:
                known_hits[key] = known[key]
    for key, text in known_hits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    nontrivial = {}
    per_sub = {}
    labels = {}
    discards = {}
    samples = []
    evaluations = 0
    skipped = 0
    for r in good:
        evaluations += r["evaluations"]
        skipped += r["time_skipped"]
        nontrivial.setdefault(r["sub"], set()).update(r["nontrivial"])
        ps = per_sub.setdefault(r["sub"], {"evaluations": 0})
        ps["evaluations"] += r["evaluations"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["discards"].items():
            discards[k] = discards.get(k, 0) + v
        for k, v in r["samples"].items():
            if not any(s["sub"] == k for s in samples):
                samples.extend({"sub": k, "case": c} for c in v)
    for k, v in per_sub.items():
        v["distinct_nontrivial"] = len(nontrivial.get(k, ()))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": sum(len(v) for v in nontrivial.values()),
            "rule": mod.RULE,
            "samples": samples,
            "per_subcheck": per_sub,
            "labels": labels,
            "discarded": discards,
            "skipped_by_time_cap": skipped,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    edir = os.environ.get("CBV_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        f.write(json.dumps(json.loads(jdump(evidence)), indent=1, sort_keys=True) + "\n")

    print(
        "%s tier=%s seed=%d evaluations=%d nontrivial=%d discarded=%d skipped=%d wall=%.1fs"
        % (
            prop,
            tier,
            seed,
            evaluations,
            evidence["coverage"]["distinct_nontrivial"],
            sum(discards.values()),
            skipped,
            time.time() - t0,
        )
    )
    if os.environ.get("CBV_VERBOSE"):
        print(json.dumps({"per_sub": per_sub, "labels": labels, "discards": discards}, indent=1, sort_keys=True))
    for line in lines:
        print(line)
    if lines:
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK ERROR in %s/%s shard %s:\n%s" % (prop, e["sub"], e["shard"], e["error"]), file=sys.stderr)
        return 3
    return 0


def replay(prop, mod, path):
    data = json.load(open(path))
    sub = {s.name: s for s in mod.SUBS}[data["sub"]]
    try:
        execute(sub, data["case"], Ctx())
    except Violation as v:
        print("%s/%s: %s" % (prop, data["sub"], v))
        if os.environ.get("CBV_VERBOSE") and v.__cause__ is not None:
            traceback.print_exception(type(v.__cause__), v.__cause__, v.__cause__.__traceback__)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    except Discard as d:
        print("case discarded: %s" % d)
        return 0
    print("replayed without violation")
    return 0
