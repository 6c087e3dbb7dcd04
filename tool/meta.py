#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from tool/properties.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(pid, title, statement, over, qtext, why, files, state, mech, observe, technique, decide, level="proof", note="", na=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                      anchors={"files": files, "state": [{"name": x} for x in state], "mechanism": [{"name": x} for x in mech], "observe_at": observe, "hook_needed": None},
                      _technique=technique, _decide=decide, _level=level, _note=note, _na=na))


exec(open(os.path.join(V, "tool", "properties.py")).read())
assert len({p["id"] for p in PROPS}) == len(PROPS)
for p in PROPS:
    assert len(p["title"]) <= 80, (p["id"], p["title"], len(p["title"]))
    assert all(os.path.exists(os.path.join("/repo", f)) for f in p["anchors"]["files"]), p["id"]
PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        fh.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
man = {"version": 1, "setup_cmd": "python3 checks/db.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 checks/run.py %s" % p["id"], "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_technique"], "level": p["_level"], "level_note": p["_note"] or "All paths of the anchored functions, loops unrolled twice then widened; third-party libraries by their declarations."} for p in PROPS if not p["_na"]],
       "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in PROPS if p["_na"]],
       "notes": "Static analysis only. Every check parses the current /repo sources with a clang-based extractor (tool/extract.cpp) against stub headers (stubs/) and decides by abstract interpretation and program queries (checks/)."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
d = open(os.path.join(V, "tool", "DESIGN.head.md")).read()
d += "\n## Properties\n\n"
for p in PROPS:
    d += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["_na"]:
        d += "Not applicable: %s\n\n" % p["_na"]
    else:
        d += "*Decided by* (%s): %s\n\n" % (p["_technique"], p["_decide"])
tail = os.path.join(V, "tool", "DESIGN.tail.md")
if os.path.exists(tail):
    import glob
    rows = "| bug | property | manifests with |\n|---|---|---|\n"
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        j = json.load(open(m)); rows += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"])
    d += open(tail).read().replace("@SEEDS@\n", rows)
    for x in json.load(open(os.path.join(V, "known_findings.json"))):
        d += "- %s\n" % (x.get("line") or x.get("entry") or "KNOWN-FINDING: property=%s %s" % (x["property"], x["what"]))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
print(len(PROPS), "properties,", sum(1 for p in PROPS if not p["_na"]), "claimed")
