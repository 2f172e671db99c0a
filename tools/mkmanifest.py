"""Write MANIFEST.json from the metadata constants in qv/checks/*.py."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
checks = []
for f in sorted(glob.glob(os.path.join(ROOT, "qv", "checks", "c[0-9][0-9].py"))):
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    pid = os.path.basename(f)[:-3].upper()
    run = "/opt/venv/bin/python -m qv.main %s --tier " % pid
    checks.append({"property": pid, "quick_cmd": run + "quick", "thorough_cmd": run + "thorough",
                   "evidence_file": "/verif/evidence/%s.json" % pid,
                   "technique": consts.get("TECH", "symbolic execution of the circuits the code generates, decided by an SMT solver over all inputs"),
                   "level": consts["LEVEL"],
                   "level_note": consts["HOW"] + " Bounds: " + consts["BOUNDS"] + " Outside: " + consts["OUTSIDE"]})
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m qv.selftest", "checks": checks,
       "not_applicable": NA,
       "notes": "Pure Python; nothing is built. Every run executes the code in /repo/src as it is on disk. z3 comes from /opt/veriftools/pyvenv."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
