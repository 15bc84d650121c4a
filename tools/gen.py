#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (a property is claimed iff sa/rules/<id>.py exists)"""
import json, os, runpy, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = runpy.run_path(V + "/tools/props.py")
P, NA = m["P"], m["NA"]
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = {k: p[k] for k in ("id", "title", "statement", "why_tests_cant")}
        d["quantifier"] = {"over": p["over"], "text": p["forall"]}
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}
        if p.get("observe"): d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]}); continue
    if not os.path.exists(V + "/sa/rules/%s.py" % p["id"].lower()):
        na.append({"property": p["id"], "reason": "no check built yet"}); print("unclaimed", p["id"]); continue
    checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they analyse the MIR of /repo's current tree, emitted by driver/ (a rustc_private front end) during cargo check; nothing of nom-exif is executed."},
          open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid: %d claimed, %d not" % (len(checks), len(na)))
except ImportError:
    print("no jsonschema")
