"""Writes properties.jsonl and MANIFEST.json from meta.py and the specs present."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from meta import PROPS  # noqa: E402
from pyvc import api, props  # noqa: E402

props.load_specs()
have = props.properties()
with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as out:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        rec = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]},
        }
        out.write(json.dumps(rec, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    pid = p["id"]
    if pid not in have:
        na.append({"property": pid, "reason": "not under contract yet"})
        continue
    units = sorted(n for n, u in api.UNITS.items() if pid in u.props)
    checks.append({
        "property": pid,
        "quick_cmd": "python3-vt -W ignore -m pyvc.check %s" % pid,
        "thorough_cmd": "python3-vt -W ignore -m pyvc.check %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "contract-based deductive verification (function contracts and loop invariants on the real source, "
                     "verification conditions discharged by z3/cvc5)",
        "level": "proof",
        "level_note": (p["note"] + " " if p["note"] else "") +
        "All verification conditions generated from the source in /repo are discharged for all inputs. Trusted: the "
        "generator (pyvc), the solvers, the library contracts in pyvc/models*.py; floats are treated as reals.",
        "theorems": units,
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as out:
    json.dump({
        "version": 1,
        "setup_cmd": "python3-vt -W ignore -m pyvc.setup_check",
        "checks": checks,
        "not_applicable": na,
        "notes": "Contracts are in specs/, the verifier in pyvc/; see DESIGN.md.",
    }, out, indent=1)
    out.write("\n")
print("%d checks, %d not claimed" % (len(checks), len(na)))
