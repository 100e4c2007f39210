"""Concrete runs of the same contracts against the real, uninstrumented code.

Used for (a) replaying the verifier's counter-models, (b) a search for a
failing input of a failed obligation, (c) the CPython cross-check.
"""
import ast
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

from . import api, core, props


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


def harvest(root):
    """Constants of the package's source: hints for the search."""
    ints, strs, floats = set(), set(), set()
    for base, _, files in os.walk(os.path.join(root, "vtelem")):
        for fname in files:
            if not fname.endswith(".py"):
                continue
            try:
                with open(os.path.join(base, fname), encoding="utf-8") as handle:
                    tree = ast.parse(handle.read())
            except (OSError, SyntaxError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    val = node.value
                    if isinstance(val, bool):
                        continue
                    if isinstance(val, int):
                        ints.add(val)
                    elif isinstance(val, float):
                        floats.add(val)
                    elif isinstance(val, str) and len(val) < 40 and "\n" not in val:
                        strs.add(val)
                if isinstance(node, ast.BinOp):
                    try:
                        val = eval(compile(ast.Expression(node), "x", "eval"), {"__builtins__": {}})  # pylint: disable=eval-used
                    except Exception:  # pylint: disable=broad-except
                        continue
                    if isinstance(val, int) and abs(val) < 2 ** 80:
                        ints.add(val)
    return {"int": sorted(ints), "str": sorted(strs), "float": sorted(floats)}


def package_frame(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(os.path.join(props.REPO, "vtelem")):
            return "%s:%s:%d" % (os.path.basename(fr.filename), fr.name, fr.lineno)
        if fr.filename.startswith(props.ROOT):
            return None
    return None


def run_once(fn, rng, values, hints, limit=20):
    """-> (status, info): ok / discard / fail / harness / hang"""
    ctx = api.ConcreteCtx(rng, values, hints)
    core.set_cur(None)
    signal.alarm(limit)
    try:
        fn(ctx)
        return "ok", ctx, None
    except core.Discard:
        return "discard", ctx, None
    except core.ContractFail as exc:
        return "fail", ctx, {"check": exc.name, "detail": str(exc.detail)}
    except Hang:
        return "hang", ctx, {"check": "terminates", "detail": "no result after %d s" % limit}
    except (core.PathEnd, core.Unsupported) as exc:
        return "harness", ctx, {"check": "", "detail": repr(exc)}
    except Exception as exc:  # pylint: disable=broad-except
        where = package_frame(exc)
        text = "%s: %s" % (type(exc).__name__, exc)
        if where is not None and not isinstance(exc, (AttributeError, NameError, ImportError)):
            return "fail", ctx, {"check": "no unexpected exception", "detail": "%s at %s" % (text, where)}
        tb = traceback.extract_tb(exc.__traceback__)
        loc = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        return "harness", ctx, {"check": "", "detail": "%s (%s)" % (text, loc)}
    finally:
        signal.alarm(0)


def replay(unit, values, hints, seed, tries=1):
    """Re-run a unit on given values; confirms a failing input."""
    rng = random.Random(seed)
    last = None
    for _ in range(tries):
        st, ctx, info = run_once(unit.fn, rng, values, hints)
        last = (st, ctx, info)
        if st == "fail":
            return last
    return last


def job_models(job, hints):
    """Replay counter-models; then search around them."""
    unit = api.UNITS[job["unit"]]
    out = {"unit": job["unit"], "fail": None, "runs": 0, "harness": None}
    deadline = time.time() + job.get("seconds", 5)
    rng = random.Random(job.get("seed", 1))
    model_hints = dict(hints)
    extra_i, extra_s = list(hints["int"]), list(hints["str"])
    for model in job["models"]:
        values = {k: (t, v) for k, (t, v) in (model or {}).items()}
        for _, (t, v) in values.items():
            if t == "int" and v is not None:
                extra_i += [v] * 5
            if t == "str" and v:
                extra_s += [v] * 5
        st, ctx, info = run_once(unit.fn, rng, values, hints)
        out["runs"] += 1
        if st == "fail":
            out["fail"] = dict(info, values=ctx.drawn, source="counter-model")
            return out
        if st == "harness":
            out["harness"] = info["detail"]
    model_hints["int"], model_hints["str"] = extra_i, extra_s
    while time.time() < deadline:
        values = {}
        if job["models"] and rng.random() < 0.6:
            model = rng.choice(job["models"]) or {}
            values = {k: (t, v) for k, (t, v) in model.items() if rng.random() < 0.7}
        st, ctx, info = run_once(unit.fn, rng, values, model_hints)
        out["runs"] += 1
        if st == "fail":
            out["fail"] = dict(info, values=ctx.drawn, source="search")
            return out
        if st == "harness":
            out["harness"] = info["detail"]
    return out


def job_random(job, hints):
    """Random runs of several units (the CPython cross-check)."""
    out = {"fails": [], "runs": {}, "ok": 0, "checks": 0, "harness": {}}
    rng = random.Random(job["seed"])
    units = [api.UNITS[n] for n in job["units"]]
    deadline = time.time() + job["seconds"]
    bad = set()
    while time.time() < deadline and len(bad) < len(units):
        for unit in units:
            if unit.name in bad:
                continue
            for _ in range(6):
                st, ctx, info = run_once(unit.fn, rng, None, hints)
                if st == "discard":
                    continue
                out["runs"][unit.name] = out["runs"].get(unit.name, 0) + (st == "ok")
                out["ok"] += st == "ok"
                out["checks"] += ctx.checks
                if st == "fail":
                    out["fails"].append(
                        dict(info, unit=unit.name, values=ctx.drawn, source="cross-check")
                    )
                    bad.add(unit.name)
                    break
                if st == "harness":
                    out["harness"][unit.name] = info["detail"]
                    bad.add(unit.name)
                    break
                if st == "hang":
                    out["harness"][unit.name] = "hang"
                    bad.add(unit.name)
                    break
                if time.time() > deadline:
                    break
    return out


def job_search(job, hints):
    """Custom oracles of a property: fn(v, ) run repeatedly."""
    out = {"fails": [], "runs": {}, "harness": {}}
    rng = random.Random(job["seed"])
    fns = api.SEARCH.get(job["prop"], [])
    if not fns:
        return out
    share = job["seconds"] / len(fns)
    for fn in fns:
        deadline = time.time() + share
        n = 0
        while time.time() < deadline or n == 0:
            st, ctx, info = run_once(fn, rng, None, hints)
            if st == "discard":
                continue
            if st == "ok":
                n += 1
            if st == "fail":
                out["fails"].append(
                    dict(info, unit="search:" + fn.__name__, values=ctx.drawn, source="search")
                )
                break
            if st in ("harness", "hang"):
                out["harness"][fn.__name__] = info["detail"]
                break
        out["runs"][fn.__name__] = n
    return out


def main():
    signal.signal(signal.SIGALRM, on_alarm)
    with open(sys.argv[1], encoding="utf-8") as handle:
        jobs = json.load(handle)
    props.load_specs()
    logging.disable(logging.CRITICAL)
    hints = harvest(props.REPO)
    res = []
    for job in jobs:
        kind = job["mode"]
        if kind == "models":
            res.append(job_models(job, hints))
        elif kind == "random":
            res.append(job_random(job, hints))
        elif kind == "search":
            res.append(job_search(job, hints))
    with open(sys.argv[2], "w", encoding="utf-8") as handle:
        json.dump(res, handle, default=repr)


if __name__ == "__main__":
    main()
