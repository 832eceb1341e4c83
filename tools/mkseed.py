#!/usr/bin/env python3
"""mkseed.py ID: reads /tmp/w/seed.json-like python file (edits, property, needs, breaks, demo) and writes /verif/seeded/ID."""
import sys, os, subprocess, json, runpy
sid, src = sys.argv[1], sys.argv[2]
d = runpy.run_path(src)
out = "/verif/seeded/" + sid
os.makedirs(out, exist_ok=True)
R = os.environ.get("SEEDREPO", "/tmp/w/seedrepo")     # a clone of /repo
assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
try:
    for f, a, b in d["edits"]:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
open(out + "/patch.diff", "w").write(diff)
json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
for n, t in d["files"].items():
    open(os.path.join(out, n), "w").write(t)
    if n.endswith(".sh"): os.chmod(os.path.join(out, n), 0o755)
