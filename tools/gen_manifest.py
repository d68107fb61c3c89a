#!/usr/bin/env python3
# Writes MANIFEST.json from the list of checks that exist.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="./check setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    d = checks.describe(i)
    if d is None:
        m["not_applicable"].append(dict(property=i, reason=checks.NA.get(i, "no check built yet")))
        continue
    m["checks"].append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                            evidence_file="evidence/%s.json" % i, technique=d["technique"], level=d.get("level", "exploration"), level_note=d["note"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
