"""Exploration of one unit: all paths, all obligations."""
import os
import time
import traceback

import z3

from . import core, models
from . import api
from .api import CONTRACTS, UNITS, SymCtx
from .core import ContractFail, PathEnd, Unsupported
from .loops import Restart

REPO = os.environ.get("VERIF_REPO", "/repo")


def innermost_repo_frame(exc):
    """Was the exception raised by code of the package (not by the harness)?"""
    tb = traceback.extract_tb(exc.__traceback__)
    if not tb:
        return None
    last = tb[-1]
    # frames of the runtime itself below package code still belong to it
    for fr in reversed(tb):
        if "/pyvc/" in fr.filename:
            continue
        if fr.filename.startswith(REPO + "/vtelem"):
            return "%s:%s" % (os.path.basename(fr.filename), fr.name)
        return None
    return None


def explore(unit, opts, drop=()):
    """Run every path of a unit. Returns a result dict (picklable)."""
    t0 = time.time()
    opts = dict(opts)
    opts.update(unit.opts)
    budget = opts.get("budget", 240)
    deadline = t0 + budget
    opts["deadline"] = deadline
    houdini_dead = set()
    restarts = 0
    while True:
        opts["houdini_dead"] = houdini_dead
        try:
            res = explore_once(unit, opts, drop)
            break
        except Restart as exc:
            houdini_dead.update(exc.cands)
            if os.environ.get("PYVC_DEBUG"):
                print("dropped candidate", exc.cands, flush=True)
            restarts += 1
            if restarts > 400:
                res = blank(unit)
                res["unsupported"].append("candidate invariants do not stabilise")
                break
    res["restarts"] = restarts
    res["wall"] = time.time() - t0
    return res


def blank(unit):
    return {
        "unit": unit.name, "paths": 0, "complete": 0, "obls": {}, "fails": [],
        "unsupported": [], "bounded": [], "covers": [], "notes": [], "called": [],
        "summarised": [], "solver_time": 0.0, "queries": 0, "smt": [], "models": [],
        "crashes": [],
    }


def explore_once(unit, opts, drop):
    res = blank(unit)
    work = [[]]
    contracts = {
        k: CONTRACTS[k].spec for k in unit.uses if k not in drop and k in CONTRACTS
    }
    covers, bounded, called, summ, notes = set(), set(), set(), set(), []
    fails = {}
    while work:
        prefix = work.pop()
        if res["paths"] >= opts.get("max_paths", 4000):
            res["unsupported"].append("path budget used up")
            break
        if time.time() > opts["deadline"]:
            res["unsupported"].append("time budget used up")
            break
        ctx = SymCtx(unit, prefix, opts)
        ctx.contracts = contracts
        core.set_cur(ctx)
        res["paths"] += 1
        try:
            unit.fn(ctx)
            if not ctx.dead and ctx._check() != z3.unsat:
                res["complete"] += 1
                ctx.covers.add("end")
        except PathEnd:
            pass
        except Unsupported as exc:
            res["unsupported"].append(str(exc) or "unsupported")
        except Restart:
            raise
        except ContractFail as exc:
            res["unsupported"].append("contract fail %s" % exc)
        except RecursionError as exc:
            res["unsupported"].append("recursion: %s" % exc)
        except Exception as exc:  # pylint: disable=broad-except
            where = innermost_repo_frame(exc)
            text = "%s: %s" % (type(exc).__name__, exc)
            if where is not None and not isinstance(exc, (AttributeError, NameError, ImportError)) and not api.harness_error(exc):
                ctx.dead = False
                # the path must be feasible for this to be a failure
                if ctx._check() == z3.sat:
                    name = "no unexpected exception"
                    obl = core.Obl(
                        name, "refuted", 0.0, "z3",
                        ctx.extract(ctx.solver.model()), None, ctx.abstract,
                        "%s in %s" % (text, where),
                    )
                    obl.loose = ctx.loose
                    ctx.obls.append(obl)
                else:
                    res["unsupported"].append("undecided path raising %s" % text)
            else:
                tb = traceback.extract_tb(exc.__traceback__)
                loc = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
                res["crashes"].append("%s (%s)" % (text, loc))
                res["unsupported"].append("harness: %s (%s)" % (text, loc))
        finally:
            core.set_cur(None)
        work.extend(ctx.pending)
        covers |= ctx.covers
        bounded |= ctx.bounded
        called |= ctx.called
        summ |= ctx.summarised
        notes.extend(n for n in ctx.notes if n not in notes)
        res["solver_time"] += ctx.solver_time
        res["queries"] += ctx.queries
        for o in ctx.obls:
            rec = res["obls"].setdefault(
                o.name, {"n": 0, "ok": 0, "backends": {}, "time": 0.0}
            )
            rec["n"] += 1
            rec["time"] += o.time
            if o.status == "ok":
                rec["ok"] += 1
                rec["backends"][o.backend] = rec["backends"].get(o.backend, 0) + 1
                if o.smt:
                    res["smt"].append((o.name, o.smt))
            else:
                lst = fails.setdefault(o.name, [])
                if len(lst) < 6:
                    lst.append(
                        {
                            "name": o.name, "status": o.status, "model": o.model,
                            "smt": o.smt, "abstract": o.abstract, "why": o.why,
                            "trail": list(ctx.trail), "loose": o.loose,
                        }
                    )
        if sum(len(x) for x in fails.values()) > 40:
            res["notes"].append("many failures: exploration stopped early")
            break
    res["fails"] = [x for lst in fails.values() for x in lst]
    res["covers"] = sorted(covers)
    res["bounded"] = sorted(bounded)
    res["called"] = sorted(called)
    res["summarised"] = sorted(summ)
    res["notes"].extend(notes)
    res["models"] = sorted(models.USED)
    seen = []
    for u in res["unsupported"]:
        if u not in seen:
            seen.append(u)
    res["unsupported"] = seen[:12]
    return res
