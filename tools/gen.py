#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/catalog.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "engine"))
import catalog
from props import PROPS
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in catalog.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": list(p["files"]), "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": list(p["observe"]), "hook_needed": None}}
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(d) + "\n")
checks, nap = [], []
for p in catalog.P:
    if "reason" in p:
        nap.append({"property": p["id"], "reason": p["reason"]})
        assert p["id"] not in PROPS
        continue
    assert p["id"] in PROPS, p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 engine/check.py %s quick" % p["id"], "thorough_cmd": "python3 engine/check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
assert {p["id"] for p in catalog.P} >= set(PROPS), set(PROPS)
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": checks, "not_applicable": nap,
     "notes": "All checks are static: they compile /repo's current sources to LLVM IR and interpret it abstractly; nothing of /repo is executed."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md: tools/design.in with the generated sections
props = ""
for p in catalog.P:
    props += "### %s %s\n" % (p["id"], p["title"])
    if "reason" in p:
        props += "Not applicable: %s\n\n" % p["reason"]
        continue
    props += catalog.HOW.get(p["id"], "(see drivers)") + "\n"
    spec = PROPS[p["id"]]
    props += "Machinery: " + ", ".join(["drivers/" + x for x in spec.get("drivers", [])] + ["rule " + x for x in spec.get("rules", [])]) + ".\n\n"
fx, kn = [], []
for l in open(os.path.join(ROOT, "known-findings.txt")):
    l = l.strip()
    if l.startswith("fixed:"):
        fx.append("* " + l[6:].strip())
    elif l.startswith("known:"):
        kn.append("* " + l[6:].strip())
seeds = "| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
rp = os.path.join(HERE, "seed_results.json")
res = json.load(open(rp)) if os.path.exists(rp) else {}
sd = os.path.join(ROOT, "seeded")
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    seeds += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "not run"))
nas = "".join("* %s (%s): %s\n" % (p["id"], p["title"], p["reason"]) for p in catalog.P if "reason" in p)
t = open(os.path.join(HERE, "design.in")).read()
t = t.replace("@@PROPS@@", props.strip()).replace("@@FINDINGS@@", "Repaired:\n" + "\n".join(fx) + "\n\nRecorded, not repaired:\n" + ("\n".join(kn) or "(none)")).replace("@@SEEDS@@", seeds.strip()).replace("@@NA@@", nas or "(nothing yet)")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
