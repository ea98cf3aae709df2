#!/usr/bin/env python3
"""tools/probe.py <harness dir> "entry a b" ... : run entries on the last built IR, in parallel, and replay violations natively"""
import sys, os, json, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check, checks
h = [x for x in checks.HARNESSES.values() if x["dir"] == sys.argv[1]][0]
ir = os.path.join(check.BUILD, h["dir"] + "-ir/y.ll"); nat = os.path.join(check.BUILD, h["dir"] + "-native/debug/" + h["bin"])
mt = os.environ.get("MT", "100"); ms = os.environ.get("MS", "20000000")
tmp = tempfile.mkdtemp()
def go(e):
    w = e.split(); out = os.path.join(tmp, e.replace(" ", "_") + ".json")
    p = subprocess.run([os.path.join(check.BUILD, "vsym/release/vsym"), "--ll", ir, "--out", out, "--max-time", mt, "--max-steps", ms, "--entry"] + w, capture_output=True, text=True)
    if p.returncode: return e + " ENGINE " + p.stderr[-600:]
    d = json.load(open(out))
    s = "%-24s paths %d mg %d steps %d maxst %d q %d solver %.1f maxq %.1f total %.1f %s %s" % (e, d["paths"], d["merged"], d["steps"], d["max_steps"], d["queries"], d["solver_s"], d["max_query_s"], d["total_s"], d["limits"], d["reach"])
    for v in d["violations"]:
        k = check.native(nat, w[0], w[1:], v["tape"])
        s += "\n    V %s | %s | x%d | %s | native %s | %s" % (v["code"], v["loc"][-60:], v["count"], v["tape"], k[:2], v["notes"])
        if os.environ.get("STK"): s += "\n      " + "\n      ".join(check.demangle(v["stack"]))
    ok = 0
    for t in d["samples"]:
        k = check.native(nat, w[0], w[1:], t["tape"])
        if k[0] == "ok" and sorted(set(k[2])) == sorted(set(t["reach"])): ok += 1
        else: s += "\n    MISMATCH %s %s" % (t, k)
    s += "\n    validated %d/%d" % (ok, len(d["samples"]))
    for t in d["limit_tapes"][:3]:
        s += "\n    LIMIT %s native %s" % (t, check.native(nat, w[0], w[1:], t["tape"], 10)[:2])
    return s
with ThreadPoolExecutor(int(os.environ.get("NP", "8"))) as ex:
    for r in ex.map(go, sys.argv[2:]): print(r, flush=True)
