"""Helper to write a planted change: edits /repo, records the diff under seeded/<id>/, restores /repo.

    python tools/mkseed.py SPEC.py     (SPEC defines a list SEEDS of dicts)
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = os.path.join("/repo/src/qrisp", f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the change\nexport JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n"
        "exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(s["id"], len(diff.splitlines()))
