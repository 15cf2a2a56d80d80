#!/usr/bin/env python3
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import props, checks
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.P: f.write(json.dumps(p) + "\n")
na = [dict(property=p["id"], reason=checks.NOT_APPLICABLE.get(p["id"], "no check built yet")) for p in props.P if p["id"] not in checks.CHECKS]
m = dict(version=1, setup_cmd="python3 setup_check.py", checks=[dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i, technique=c["technique"], level=c.get("level", "model_checking"), level_note=c["note"]) for i, c in sorted(checks.CHECKS.items())], not_applicable=na,
         notes="All checks rebuild their harnesses from /repo's working tree in a scratch directory under /tmp (run.py); see DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
ids = [p["id"] for p in props.P]; assert len(set(ids)) == len(ids)
for p in props.P: assert len(p["title"]) <= 80, (p["id"], len(p["title"])); assert p["statement"].count(". ") <= 2, p["id"]
for c in checks.CHECKS: assert c in ids, c
print(len(ids), "properties,", len(checks.CHECKS), "checks,", len(na), "not claimed")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json")); [jsonschema.validate(p, s) for p in props.P]; jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("schemas ok")
except ImportError: pass
