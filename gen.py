#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and checks.py"""
import json, os
from props import T
from checks import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
ids = [t["id"] for t in T]
assert len(ids) == len(set(ids)) and set(PROPS) | set(NOT_APPLICABLE) == set(ids), (set(PROPS) ^ set(ids))
for t in T:
    assert len(t["title"]) <= 80, t["title"]
    assert t["statement"].replace("!=", "").count(". ") <= 2, t["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for t in T:
        f.write(json.dumps(t, ensure_ascii=False) + "\n")
KNOWN = (" The code has recorded defects (known_findings.jsonl): the tree as it is is explored first, and each failing input it yields (up to 80 sampled per harness) must be one that the recorded repairs (repairs/) cure; "
         "the tree with those repairs merged into it is then explored completely, and anything failing there is a violation.")
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py run %s --tier quick" % i, thorough_cmd="python3 check.py run %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the LLVM IR of /repo, path conditions and assertions decided by Z3", level=p["level"],
            level_note="Every feasible path within the bounds is executed over the real code and the assertion decided by the solver for all values." + (KNOWN if p.get("repaired") else "") + " Bounds: %s. Outside: %s. Trusted: rustc's IR, the executor's model of the IR (sampled paths and every counterexample are replayed natively), Z3." % (p["bounds"], p["outside"])))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
    notes="No hooks: each check compiles an exact copy of /repo/src (module declarations made visible, terminal output discarded) together with its harness to LLVM IR and explores it with engine/, a symbolic executor over Z3. Exit codes: 0 holds, 1 violation, 2 not decided (a bound was not exhausted or the code uses something the executor cannot encode), 3 the check could not be built.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
# DESIGN.md: section 3 from the tables, the table of planted bugs from their descriptions
import sys
sys.path.insert(0, os.path.join(V, "design"))
from oracles import O
costs = json.load(open(os.path.join(V, "design", "costs.json"))) if os.path.exists(os.path.join(V, "design", "costs.json")) else {}
d = ["## 3. Per property", "", "For each property: what is symbolic and what it is compared with; the harnesses with their bounds (quick / thorough parameters); bounds in words; what lies outside; the cost of the quick check on this",
     "sandbox (wall time including about 20 s of compiling, paths, solver queries; V/K/R: without the tree as it is). All are bounded (`model_checking`): the solver's verdict covers every value within the bounds.", ""]
for t in T:
    i = t["id"]
    if i not in PROPS:
        d += ["**%s %s.** Not applicable: %s" % (i, t["title"], NOT_APPLICABLE[i]), ""]
        continue
    p = PROPS[i]
    d.append("**%s %s.** Anchored in %s." % (i, t["title"], ", ".join("`%s`" % a for a in t["anchors"]["files"])))
    d.append("Compared with: " + O[i])
    d.append("Harnesses: " + "; ".join("`%s`%s %s" % (r["fn"], "" if not r["params"] else " %s/%s" % (r["params"], r.get("thorough", {}).get("params", r["params"])), r["what"]) for r in p["runs"]) + ".")
    d.append("Bounds: %s. Outside: %s." % (p["bounds"], p["outside"]))
    c = costs.get(i)
    if c: d.append("Cost: %d s, %d paths, %d queries." % (c["wall"], c["paths"], c["queries"]))
    d.append("")
sd = ["| bug | what it breaks | |", "|---|---|---|"]
MISSED = json.load(open(os.path.join(V, "design", "missed.json")))
n = 0
for k in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    f = os.path.join(V, "seeded", k, "meta.json")
    if os.path.exists(f):
        n += 1
        sd.append("| %s%s | %s | %s |" % (k, "*" if k in MISSED else "", json.load(open(f))["what_it_breaks"].replace("|", "/").replace("\n", " "), MISSED.get(k, "")))
if n:
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write(open(os.path.join(V, "design", "1-method.md")).read() + "\n".join(d) + "\n" + open(os.path.join(V, "design", "2-rest.md")).read().replace("SEEDCOUNT", str(n)).replace("SEEDTABLE", "\n".join(sd)))
print(len(T), "properties", len(checks), "checks")
