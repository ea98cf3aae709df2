#!/usr/bin/env python3
"""mkseed.py ID PROP template: reads edits from stdin as python: EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (rust source)"""
import sys, os, subprocess, json, shutil
id, prop, tmpl = sys.argv[1:4]
ns = {}
exec(sys.stdin.read(), ns)
REPO = os.environ.get("REPO", "/repo")
d = os.environ.get("SEEDS", "/verif/seeded") + "/" + id
os.makedirs(d, exist_ok=True)
t = os.environ.get("TMPL", "/verif/tools/") + tmpl
for f in os.listdir(t):
    shutil.copy(os.path.join(t, f), d)
if "MAIN" in ns:
    open(d + "/main.rs", "w").write(ns["MAIN"])
assert subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout == ""
try:
    for f, old, new in ns["EDITS"]:
        p = REPO + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
cur = None; ln = 0; orig = other = 0
for l in diff.split("\n"):
    if l.startswith("--- a/"): cur = l[6:]
    elif l.startswith("@@"): ln = int(l.split()[1].split(",")[0][1:])
    elif l.startswith("-") and not l.startswith("---"):
        b = subprocess.run(["git", "-C", REPO, "blame", "-L", f"{ln},{ln}", cur], capture_output=True, text=True).stdout
        if b.startswith("^9ee34cb"): orig += 1
        else: other += 1
        ln += 1
    elif l.startswith(" "): ln += 1
print("original lines changed:", orig, "others:", other)
json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
print(id, len(diff))
