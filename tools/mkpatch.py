#!/usr/bin/env python3
"""mkpatch.py ID PROPERTY FILE <<< 'OLD\n====\nNEW' : write seeded/ID/patch.diff replacing OLD by NEW (once) in FILE of /repo's HEAD; NEEDS/BREAKS from env."""
import sys, os, subprocess, json, tempfile, shutil
ID, prop, f = sys.argv[1:4]
src = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f]).decode()
parts = sys.stdin.read().split("\n#####\n")
new = src
for part in parts:
    old, rep = part.rstrip("\n").split("\n====\n") if "\n====\n" in part else part.rstrip("\n").split("\n====")
    assert new.count(old) == 1, (new.count(old), old)
    new = new.replace(old, rep)
d = tempfile.mkdtemp()
for n, t in (("a", src), ("b", new)):
    p = os.path.join(d, n, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)
out = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=d, capture_output=True, text=True).stdout
S = "/verif/seeded/" + ID; os.makedirs(S, exist_ok=True)
prev = ""
pf = S + "/patch.diff"
if os.environ.get("APPEND"): prev = open(pf).read()
open(pf, "w").write(prev + out)
if not os.environ.get("APPEND"):
    json.dump({"property": prop, "needs": os.environ["NEEDS"], "what_it_breaks": os.environ["BREAKS"]}, open(S + "/meta.json", "w"), indent=1)
shutil.rmtree(d); print(out)
