"""mkbug.py: create seeded/<id> from a description file (python literal dict)."""
import json
import os
import subprocess
import sys
import tempfile
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(bid, prop, needs, breaks, edits, demo):
    """edits: list of (file, old, new)."""
    out = os.path.join(ROOT, "seeded", bid)
    os.makedirs(out, exist_ok=True)
    with tempfile.TemporaryDirectory(dir="/tmp") as tmp:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        for name, old, new in edits:
            path = os.path.join(tmp, "r", name)
            text = open(path, encoding="utf-8").read()
            pad = min(len(x) - len(x.lstrip()) for x in old.strip("\n").split("\n") if x.strip())
            old, new = ("\n".join(x[pad:] for x in y.strip("\n").split("\n")) for y in (old, new))
            cands = [i for i in (0, 4, 8, 12, 16, 20, 24, 28) if textwrap.indent(old, " " * i) in text]
            assert cands, (bid, name, old)
            ind = " " * cands[-1]
            assert text.count(textwrap.indent(old, ind)) == 1, (bid, name, "ambiguous", old)
            text = text.replace(textwrap.indent(old, ind), textwrap.indent(new, ind))
            open(path, "w", encoding="utf-8").write(text)
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], check=True, capture_output=True).stdout
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
    with open(os.path.join(out, "demo.py"), "w", encoding="utf-8") as f:
        f.write(textwrap.dedent(demo).strip("\n") + "\n")
    with open(os.path.join(out, "demo.sh"), "w", encoding="utf-8") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                'exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    with open(os.path.join(out, "meta.json"), "w", encoding="utf-8") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
