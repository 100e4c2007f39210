"""Loading of specifications; which units decide which property."""
import importlib
import os
import sys

from . import api

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"


def setup_paths():
    sys.dont_write_bytecode = True
    for p in (ROOT, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    if SITE not in sys.path:
        sys.path.append(SITE)


def load_specs():
    setup_paths()
    folder = os.path.join(ROOT, "specs")
    for fname in sorted(os.listdir(folder)):
        if fname.endswith(".py") and not fname.startswith("_"):
            importlib.import_module("specs." + fname[:-3])


def units_of(prop):
    """Units of a property: its own, and the refinement units of every
    contract they rely on (transitively)."""
    todo = [n for n in api.UNITS if prop in api.UNITS[n].props]
    seen = []
    while todo:
        name = todo.pop(0)
        if name in seen:
            continue
        seen.append(name)
        for key in api.UNITS[name].uses:
            ref = "refine:" + key
            if ref in api.UNITS:
                todo.append(ref)
    return seen


def properties():
    out = []
    for u in api.UNITS.values():
        for p in u.props:
            if p not in out:
                out.append(p)
    for p in api.SEARCH:
        if p not in out:
            out.append(p)
    return sorted(out)
