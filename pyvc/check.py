"""Decide one property: verify its units, report, write the evidence file."""
import argparse
import hashlib
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import api, props

EVID = os.path.join(props.ROOT, "evidence")
REPLAY = os.path.join(EVID, "replay")
KNOWN = os.path.join(props.ROOT, "known_findings.jsonl")

TRUSTED_BASE = [
    "pyvc (this repository's VC generator): re-execution of the instrumented source under CPython; "
    "integers, strings, byte strings, sequences and maps as z3 terms",
    "z3 %s and cvc5 as back ends" % "5.3",
    "floating-point arithmetic treated as real arithmetic (finite values)",
    "a package function that is not under contract is verified by executing its body",
]


class Worker:
    """One unit in one forked process."""

    def __init__(self, name, opts, drop, timeout):
        self.name = name
        self.drop = drop
        self.t0 = time.time()
        self.timeout = timeout
        self.read, write = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.read)
            code = 0
            try:
                os.setpgid(0, 0)
                limit_memory()
                from . import run

                res = run.explore(api.UNITS[name], opts, drop)
                data = pickle.dumps(res)
            except BaseException as exc:  # pylint: disable=broad-except
                data = pickle.dumps(
                    {"unit": name, "crash": "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc())}
                )
                code = 0
            with os.fdopen(write, "wb") as handle:
                handle.write(data)
            os._exit(code)
        os.close(write)
        os.set_blocking(self.read, False)
        self.data = b""

    def poll(self):
        """Result when finished, else None."""
        while True:
            try:
                chunk = os.read(self.read, 1 << 20)
            except BlockingIOError:
                break
            if not chunk:
                os.close(self.read)
                os.waitpid(self.pid, 0)
                try:
                    return pickle.loads(self.data)
                except Exception as exc:  # pylint: disable=broad-except
                    return {"unit": self.name, "crash": "worker died (%s)" % exc}
            self.data += chunk
        if time.time() - self.t0 > self.timeout:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.read)
            return {"unit": self.name, "crash": "timeout after %d s" % self.timeout}
        return None


def limit_memory():
    import resource

    cap = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (cap, cap))


def run_units(jobs, opts, procs, timeout, log):
    """jobs: [(name, drop)] -> {name: result}"""
    todo = sorted(jobs, key=lambda j: -api.UNITS[j[0]].weight)
    live, out = [], {}
    while todo or live:
        while todo and len(live) < procs:
            name, drop = todo.pop(0)
            live.append(Worker(name, opts, drop, timeout))
        for w in list(live):
            res = w.poll()
            if res is not None:
                live.remove(w)
                if "crash" in res:
                    from . import run

                    why = res["crash"]
                    res = run.blank(api.UNITS[w.name])
                    res["unsupported"].append("verifier: " + why.strip().splitlines()[0])
                    res["crashes"].append(why)
                res.setdefault("wall", time.time() - w.t0)
                res["drop"] = sorted(w.drop)
                out[w.name] = res
                log("  unit %-48s %s" % (w.name, brief(res)))
        time.sleep(0.02)
    return out


def brief(res):
    n = sum(o["n"] for o in res["obls"].values())
    ok = sum(o["ok"] for o in res["obls"].values())
    txt = "%d/%d obligations, %d paths (%d complete), %.1f s" % (
        ok, n, res["paths"], res["complete"], res.get("wall", 0))
    if res["unsupported"]:
        txt += "; REACH: " + str(res["unsupported"][0])[:300]
    if res["bounded"]:
        txt += "; BOUNDED: " + str(res["bounded"][0])[:100]
    return txt


def status(res):
    """proved / refuted / loose / unknown / reach / bounded / vacuous"""
    n = sum(o["n"] for o in res["obls"].values())
    if any(f["status"] == "refuted" and not f["loose"] for f in res["fails"]):
        return "refuted"
    if any(f["status"] == "refuted" for f in res["fails"]):
        # only on paths that unroll a loop without a contract: such a
        # counter-model counts when it replays
        return "loose"
    if res["fails"]:
        return "unknown"
    if res["unsupported"]:
        return "reach"
    if n == 0 or res["complete"] == 0:
        return "vacuous"
    want = api.UNITS[res["unit"]].covers
    if any(c not in res["covers"] for c in want):
        return "vacuous"
    if res["bounded"]:
        return "bounded"
    return "proved"


def start_concrete(jobs):
    folder = tempfile.mkdtemp(prefix="vc_conc_")
    inp, outp = os.path.join(folder, "in.json"), os.path.join(folder, "out.json")
    with open(inp, "w", encoding="utf-8") as handle:
        json.dump(jobs, handle)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    err = open(os.path.join(folder, "err"), "w", encoding="utf-8")  # pylint: disable=consider-using-with
    proc = subprocess.Popen(  # pylint: disable=consider-using-with
        [sys.executable, "-m", "pyvc.concrete", inp, outp], cwd=props.ROOT, env=env,
        stdout=subprocess.DEVNULL, stderr=err, start_new_session=True,
    )
    err.close()
    return proc, folder, outp


def end_concrete(handle, timeout):
    proc, folder, outp = handle
    try:
        proc.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    proc.wait()
    res, note = None, ""
    try:
        with open(outp, encoding="utf-8") as fd:
            res = json.load(fd)
    except (OSError, ValueError):
        try:
            with open(os.path.join(folder, "err"), encoding="utf-8") as fd:
                note = fd.read()[-800:]
        except OSError:
            pass
    for name in os.listdir(folder):
        os.unlink(os.path.join(folder, name))
    os.rmdir(folder)
    return res, note


def known_findings(prop):
    out = []
    if os.path.isfile(KNOWN):
        with open(KNOWN, encoding="utf-8") as handle:
            for line in handle:
                line = line.strip()
                if line.startswith("{"):
                    rec = json.loads(line)
                    if rec.get("property") == prop and rec.get("status") == "open":
                        out.append(rec)
    return out


def matches(rec, unit, check):
    return rec["unit"] == unit and rec["check"] == check


def main():
    par = argparse.ArgumentParser()
    par.add_argument("prop")
    par.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    par.add_argument("--procs", type=int, default=8)
    par.add_argument("--only")
    par.add_argument("-v", action="store_true")
    args = par.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = args.prop
    quick = args.tier == "quick"

    def log(*txt):
        print(*txt, flush=True)

    props.load_specs()
    names = units_for(prop, args)
    if not names and prop not in api.SEARCH:
        log("no units for property", prop)
        return 2
    conc_units = [n for n in names if api.UNITS[n].concrete]
    conc_s = 6 if quick else 60
    conc = start_concrete(
        [{"mode": "random", "units": conc_units, "seconds": conc_s, "seed": seed},
         {"mode": "search", "prop": prop, "seconds": conc_s, "seed": seed}]
    )
    # symbolic side
    from . import instrument

    instrument.install("vtelem", props.REPO)
    import_err = preload()
    opts = {
        "budget": 200 if quick else 1200, "obl_ms": 20000 if quick else 120000,
        "keep_smt": not quick, "seed": seed, "verbose": args.v,
    }
    log("property %s (%s): %d units" % (prop, args.tier, len(names)))
    results = run_units([(n, frozenset()) for n in names], opts, args.procs, opts["budget"] + 60, log)

    # a contract whose refinement does not go through stands for nothing:
    # the units that rely on it are redone with the real body instead
    dropped = set()
    for _ in range(4):
        bad = {n[len("refine:"):] for n, r in results.items()
               if n.startswith("refine:") and status(r) != "proved"} - dropped
        if not bad:
            break
        dropped |= bad
        redo = [(n, frozenset(dropped)) for n in names
                if set(api.UNITS[n].uses) & bad and not (n.startswith("refine:") and n[7:] in dropped)]
        log("  contracts not established: %s; redoing %d units with bodies" % (sorted(bad), len(redo)))
        more = run_units(redo, opts, args.procs, opts["budget"] + 60, log)
        results.update(more)

    conc_res, conc_note = end_concrete(conc, 2 * conc_s + 60)

    # verdict
    violations, notes, weak = [], [], []
    known = known_findings(prop)
    known_hit = []
    need_models = []
    for n, r in results.items():
        st = status(r)
        unit = api.UNITS[n]
        own = prop in unit.props
        if st == "proved":
            continue
        if st in ("refuted", "loose") and (own or unit.essential):
            need_models.append((n, r))
        elif st in ("refuted", "loose"):
            notes.append("internal contract %s refuted: dropped, its callers verified with the body" % n)
        else:
            weak.append((n, st, (r["unsupported"] or r["bounded"] or [f["name"] for f in r["fails"]])[:3]))
    seen_fail = set()

    def report(unit, check, info, how):
        for rec in known:
            if matches(rec, unit, check):
                if rec not in known_hit:
                    known_hit.append(rec)
                return
        if (unit, check) in seen_fail:
            return
        seen_fail.add((unit, check))
        violations.append((unit, check, info, how))

    if conc_res is not None:
        rnd, sea = conc_res
        for f in rnd["fails"] + sea["fails"]:
            unit = f["unit"]
            u = api.UNITS.get(unit)
            if u is not None and not (prop in u.props or u.essential):
                notes.append("cross-check: internal contract %s fails concretely (%s)" % (unit, f["check"]))
                continue
            report(unit, f["check"], f, "concrete")
        harness = dict(rnd["harness"], **sea["harness"])
    else:
        harness = {"*": "concrete runner gave no result: " + conc_note}
        rnd, sea = {"runs": {}, "ok": 0, "checks": 0}, {"runs": {}}
    for n in [x for x, _ in need_models]:
        pass
    jobs, index = [], []
    for n, r in need_models:
        refs = [f for f in r["fails"] if f["status"] == "refuted"]
        if api.UNITS[n].concrete:
            jobs.append({
                "mode": "models", "unit": n, "seconds": 12 if quick else 60, "seed": seed,
                "models": [f["model"] for f in refs][:12],
            })
            index.append((n, refs))
        else:
            index.append((n, refs))
    rep = {}
    if jobs:
        # independent subprocesses, at most procs at a time
        pend = list(jobs)
        while pend:
            batch, pend = pend[:args.procs], pend[args.procs:]
            hs = [(j["unit"], start_concrete([j])) for j in batch]
            for name, h in hs:
                out, note = end_concrete(h, 120 if quick else 300)
                rep[name] = out[0] if out else {"fail": None, "harness": note}
    for n, refs in index:
        r = results[n]
        got = rep.get(n)
        if got and got.get("fail"):
            report(n, got["fail"]["check"], dict(got["fail"], obligation=refs[0]["name"], smt=refs[0]["smt"],
                                                 why=refs[0]["why"]), "concrete")
            continue
        if status(r) == "loose":
            weak.append((n, "loose", [f["name"] for f in refs][:3]))
            continue
        if any(v[3] == "concrete" for v in violations) and True:
            # a concrete failing input of this property is already at hand
            notes.append("obligation refuted without replay: %s / %s" % (n, refs[0]["name"]))
            continue
        for f in refs[:1]:
            report(n, f["name"], f, "obligation")
    violations.sort(key=lambda v: v[3] != "concrete")

    # evidence
    proved = [n for n, r in results.items() if status(r) == "proved"]
    n_obl = sum(o["n"] for r in results.values() for o in r["obls"].values())
    n_ok = sum(o["ok"] for r in results.values() for o in r["obls"].values())
    backends = {}
    for r in results.values():
        for o in r["obls"].values():
            for b, c in o["backends"].items():
                backends[b] = backends.get(b, 0) + c
    second = None
    if not quick:
        second = recheck(results, args.procs, log)
    viol_files = []
    for i, (unit, check, info, how) in enumerate(violations):
        path = write_replay(prop, i, unit, check, info, how, results.get(unit))
        viol_files.append(path)
    all_own = [n for n in names if prop in api.UNITS[n].props]
    own_proved = all(status(results[n]) == "proved" for n in all_own) and bool(all_own)
    deps_ok = all(status(results[n]) == "proved" for n in names)
    called, models_used = set(), set()
    for r in results.values():
        called |= set(r["called"])
        models_used |= set(r["models"])
    under_contract = sorted({f for n in names for f in api.UNITS[n].funcs})
    used = sorted({k for n in names for k in api.UNITS[n].uses if "refine:" + k not in api.UNITS})
    by_units = {k: list(api.CONTRACTS[k].by) for k in used if k in api.CONTRACTS and api.CONTRACTS[k].by}
    trusted = [k for k in used if k not in by_units]
    evid = {
        "property": prop, "tier": args.tier, "seed": seed,
        "level": "proof" if own_proved and not violations else "exploration",
        "coverage": {
            "obligations": n_obl, "discharged": n_ok,
            "obligation_names": sum(len(r["obls"]) for r in results.values()),
            "checker_cmd": "python3-vt -m pyvc.check %s --tier %s" % (prop, args.tier),
            "trusted_base": TRUSTED_BASE,
            "back_ends": backends,
            "solver_time_s": round(sum(r["solver_time"] for r in results.values()), 2),
            "solver_queries": sum(r["queries"] for r in results.values()),
            "units": {
                n: {
                    "status": status(r), "paths": r["paths"], "complete_paths": r["complete"],
                    "obligations": {k: [o["ok"], o["n"]] for k, o in r["obls"].items()},
                    "contracts_dropped": r.get("drop", []), "wall_s": round(r.get("wall", 0), 2),
                    "bounded": r["bounded"], "out_of_reach": r["unsupported"],
                } for n, r in results.items()
            },
            "units_proved": len(proved), "units_total": len(results),
            "functions_under_contract": under_contract,
            "functions_executed_by_body": sorted(called - set(under_contract)),
            "contracts_assumed_without_proof": trusted,
            "contracts_proved_as": by_units,
            "contracts_dropped": sorted(dropped),
            "all_dependencies_proved": deps_ok,
            "bounded_stand_ins": [{"unit": n, "why": st, "detail": [str(x)[:300] for x in d]} for n, st, d in weak],
            "cross_check": {
                "concrete_runs": rnd["ok"], "checks": rnd["checks"], "per_unit": rnd["runs"],
                "searches": sea["runs"], "not_runnable": harness, "seconds": conc_s,
            },
            "second_solver": second,
            "known_findings": [rec["id"] for rec in known_hit],
        },
        "assumptions": assumptions(models_used, trusted),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    if import_err:
        evid["coverage"]["import_error"] = import_err
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w", encoding="utf-8") as handle:
        json.dump(evid, handle, indent=1, default=str)
    for t in notes:
        log("  note:", t)
    for n, st, d in weak:
        log("  stand-in (bounded): %s is %s: %s" % (n, st, str(d)[:300]))
    for n, d in harness.items():
        log("  cross-check cannot run %s: %s" % (n, str(d)[-300:]))
    for rec in known:
        # a listed finding is demonstrated again on every run where possible
        log("KNOWN-FINDING: property=%s %s%s" % (
            prop, rec["what"], "" if rec in known_hit else " (not re-observed in this run)"))
    log("property %s: %d/%d obligations discharged, %d/%d units proved, %d concrete runs, %.1f s" % (
        prop, n_ok, n_obl, len(proved), len(results), rnd["ok"], time.time() - t0))
    if violations:
        for (unit, check, info, how), path in zip(violations, viol_files):
            log("  failed: %s / %s [%s] %s" % (unit, check, how, str(info.get("detail") or info.get("why") or "")[:300]))
        first = violations[0]
        tail = "" if first[3] == "concrete" else " no-failing-input-found"
        log("VIOLATION property=%s replay=%s%s" % (prop, viol_files[0], tail))
        return 1
    return 0


def units_for(prop, args):
    names = props.units_of(prop)
    if args.only:
        names = [n for n in names if args.only in n]
    if args.tier == "quick":
        names = [n for n in names if api.UNITS[n].tier == "quick"]
    return names


def preload():
    """Import the instrumented package once, before forking."""
    import importlib

    errs = []
    base = os.path.join(props.REPO, "vtelem")
    for folder, _, files in sorted(os.walk(base)):
        for f in sorted(files):
            if not f.endswith(".py") or f in ("__main__.py",):
                continue
            rel = os.path.relpath(os.path.join(folder, f), props.REPO)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[: -len(".__init__")]
            try:
                importlib.import_module(rel)
            except Exception as exc:  # pylint: disable=broad-except
                errs.append("%s: %s: %s" % (rel, type(exc).__name__, exc))
    import logging

    logging.disable(logging.CRITICAL)
    return errs


def recheck(results, procs, log):
    """Second opinion: every kept query goes to cvc5 as well."""
    from concurrent.futures import ProcessPoolExecutor

    from .core import cvc5_check

    todo = []
    for n, r in results.items():
        for name, smt in r["smt"]:
            todo.append((n, name, smt))
    uniq = {}
    for n, name, smt in todo:
        uniq.setdefault(hashlib.sha1(smt.encode()).hexdigest(), (n, name, smt))
    items = list(uniq.values())[:3000]
    out = {"queries": len(items), "unsat": 0, "unknown": 0, "sat": []}
    t = time.time()
    with ProcessPoolExecutor(procs) as pool:
        for (n, name, _), res in zip(items, pool.map(_cvc5_one, [x[2] for x in items], chunksize=8)):
            if res == "unsat":
                out["unsat"] += 1
            elif res == "sat":
                out["sat"].append([n, name])
            else:
                out["unknown"] += 1
    out["seconds"] = round(time.time() - t, 1)
    log("  second solver: %d queries, %d confirmed, %d undecided, %d disagree" % (
        out["queries"], out["unsat"], out["unknown"], len(out["sat"])))
    return out


def _cvc5_one(smt):
    from .core import cvc5_check

    return cvc5_check(smt, 5000)


def assumptions(models_used, trusted):
    out = [
        "Python integers are mathematical integers (exact); floats are modelled as reals (no rounding, nan or "
        "infinities) except where the cross-check and searches run them concretely",
        "str(), repr(), %-formatting and json text of symbolic values are opaque strings; logging has no effect",
        "queue.Queue is a FIFO; threading primitives follow their documentation; other threads interfere only "
        "where the contract says so",
    ]
    for m in sorted(models_used):
        out.append("standard library contract assumed: " + m)
    for k in trusted:
        out.append("contract assumed without proof: " + k)
    return out


def write_replay(prop, i, unit, check, info, how, res):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, "%s-%d.json" % (prop, i))
    smt = info.get("smt")
    data = {
        "property": prop, "unit": unit, "failed": check, "how": how,
        "obligation": info.get("obligation", check),
        "values": info.get("values") or info.get("model"),
        "detail": info.get("detail") or info.get("why"),
        "verifier_output": {
            "status": info.get("status", "refuted"), "trail": info.get("trail"),
            "query": smt[:200000] if smt else None,
        },
        "replay_cmd": "python3-vt -m pyvc.replay %s" % path,
    }
    if how != "concrete":
        data["note"] = "no-failing-input-found"
    with open(path, "w", encoding="utf-8") as handle:
        json.dump(data, handle, indent=1, default=str)
    return path


if __name__ == "__main__":
    sys.exit(main())
