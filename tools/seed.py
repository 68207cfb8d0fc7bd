#!/usr/bin/env python3
"""Create a seeded change: seed.py ID PROPERTY SPECFILE. SPEC is a python file defining
needs, breaks, edits=[(path, old, new)], files={name: text} (demo.sh among them)."""
import sys, os, json, subprocess
sid, prop, spec = sys.argv[1:4]
ns = {}; exec(open(spec).read(), ns)
R = "/repo"
def git(*a, **k): return subprocess.run(["git", "-C", R] + list(a), text=True, capture_output=True, **k)
assert not git("status", "--porcelain").stdout.strip(), "repo dirty"
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
for p, a, b in ns["edits"]:
    t = open(R + "/" + p).read()
    assert t.count(a) == 1, (p, t.count(a), a)
    open(R + "/" + p, "w").write(t.replace(a, b))
diff = git("diff").stdout
git("checkout", "--", ".")
open(d + "/patch.diff", "w").write(diff)
for n, t in ns["files"].items():
    os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
    open(d + "/" + n, "w").write(t)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
print(diff)
