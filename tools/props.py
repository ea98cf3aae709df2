#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below and checks.py"""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
import checks
P, NA = [], []
TECH = "symbolic execution of the compiled LLVM IR of the real code with Z3 (bounded)"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, note=None, na=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": list(observe), "hook_needed": hook}})
    if na:
        NA.append({"property": id, "reason": na})


exec(open(os.path.join(R, "tools/props_table.py")).read())
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
claimed = [i for i in ids if i in checks.CHECKS]
assert not set(checks.CHECKS) - set(ids), set(checks.CHECKS) - set(ids)
missing = [i for i in ids if i not in checks.CHECKS and i not in {n["property"] for n in NA}]
assert not missing, missing
for p in P:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
NOTE = ("Holds for every value within the stated bounds: %s. Decided by bounded symbolic execution of the LLVM IR compiled from /repo's current sources, each branch and "
        "assertion decided by Z3; counterexamples are replayed natively before they are reported. Trusts rustc/LLVM, the engine vsym (models of completed paths are "
        "replayed natively on every run) and Z3. Says nothing outside the bounds.%s")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": HOOKS,
    "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                "technique": TECH, "level": "model_checking",
                "level_note": NOTE % (checks.CHECKS[i]["bounds"], (" " + checks.CHECKS[i]["outside"]) if checks.CHECKS[i]["outside"] else "")} for i in claimed],
    "not_applicable": NA,
    "notes": "See DESIGN.md. known/findings.txt lists repaired and recorded defects.",
}
json.dump(man, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)


def between(text, mark, body):
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + "\n" + text[j:]


def design():
    """the generated tables of DESIGN.md; costs are those of the last quick run on this machine"""
    costs = os.path.join(R, "tools/costs.json")
    cost = json.load(open(costs)) if os.path.exists(costs) else {}
    for i in claimed:
        try:
            e = json.load(open(os.path.join(R, "evidence", i + ".json")))
        except OSError:
            continue
        if e["tier"] == "quick" and not e["violations"]:
            c = e["coverage"]
            cost[i] = {"s": round(e["wall_s"]), "jobs": c["jobs"], "paths": c["states"], "queries": c["queries"]}
    json.dump(cost, open(costs, "w"), indent=0, sort_keys=True)
    t = ["Cost = quick run: jobs / paths / SMT queries / wall seconds including 0-30 s of build.", "",
         "| id | property | decided by (entries) | bounds | outside the claim | cost |", "|---|---|---|---|---|---|"]
    for p in P:
        i = p["id"]
        if i not in checks.CHECKS:
            t.append("| %s | %s | not applicable | | %s | |" % (i, p["title"], p.get("na", "")))
            continue
        c = checks.CHECKS[i]
        ents = []
        for j in c["jobs"]("thorough"):
            if j[0] not in ents:
                ents.append(j[0])
        k = cost.get(i)
        t.append("| %s | %s | %s | %s | %s | %s |" % (i, p["title"], ", ".join("`%s`" % e for e in ents), c["bounds"], c["outside"] or "",
                                                 "%d / %d / %d / %d" % (k["jobs"], k["paths"], k["queries"], k["s"]) if k else ""))
    s = ["| id | property | change | needs | result |", "|---|---|---|---|---|"]
    res = {}
    for l in open(os.path.join(R, "tools/catch.txt")):
        a = [x.strip() for x in l.split("|")]
        if len(a) >= 2:
            res[a[0]] = a[1]
    sd = os.path.join(R, "seeded")
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        s.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], res.get(d, "not run yet")))
    p = os.path.join(R, "DESIGN.md")
    x = open(p).read()
    x = between(between(x, "table", "\n".join(t)), "seeds", "\n".join(s))
    open(p, "w").write(x)


design()
try:
    import jsonschema
    S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
    jsonschema.validate(man, S("MANIFEST"))
    for p in P:
        jsonschema.validate(p, S("PROPERTIES"))
    print("valid:", len(P), "properties,", len(claimed), "claimed")
except ImportError:
    print("jsonschema not available")
