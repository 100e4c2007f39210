"""Prints the table of planted bugs for DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | property | needs |\n|---|---|---|")
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json"), encoding="utf-8"))
    print("| %s | %s | %s |" % (d, m["property"], m["needs"]))
