"""Writes DESIGN.md: tools/design_head.md, one section per property from the check modules, tools/design_tail.md."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from qv import env
env.setup()
out = [open(os.path.join(ROOT, "tools/design_head.md")).read().rstrip(), "", "## Properties", ""]
na = {d["property"] if "property" in d else d["id"]: d for d in json.load(open(os.path.join(ROOT, "tools/not_applicable.json")))}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    out += ["### %s — %s" % (p["id"], p["title"]), "", p["statement"], ""]
    try:
        m = importlib.import_module("qv.checks." + p["id"].lower())
    except ImportError:
        out += ["Not decided by this family: %s" % na[p["id"]]["reason"], ""]
        continue
    try:
        ev = json.load(open(os.path.join(ROOT, "evidence", p["id"] + ".json")))
    except OSError:
        ev = {}
    n = len(m.cases("quick"))
    out += ["* Analysed: " + "; ".join(m.FUNCTIONS), "* How: " + m.HOW, "* Bounds: " + m.BOUNDS, "* Outside: " + m.OUTSIDE]
    if getattr(m, "ASSUME", None):
        out.append("* Assumed: " + (m.ASSUME if isinstance(m.ASSUME, str) else "; ".join(m.ASSUME)))
    if getattr(m, "TRUSTED", None):
        out.append("* Trusted: " + ("; ".join(m.TRUSTED) if isinstance(m.TRUSTED, (list, tuple)) else m.TRUSTED))
    out.append("* Cost: %d cases in the quick tier, %d in the thorough tier%s" % (n, len(m.cases("thorough")), ""))
    out += ["* Beyond tests: " + p["why_tests_cant"], ""]
out.append(open(os.path.join(ROOT, "tools/design_tail.md")).read().rstrip())
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
