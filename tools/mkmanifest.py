#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from checks/*/units.py and checks/na.py"""
import os, json, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for p in sorted(os.listdir(os.path.join(ROOT, "checks"))):
    f = os.path.join(ROOT, "checks", p, "units.py")
    if not os.path.exists(f):
        continue
    d = {}
    exec(compile(open(f).read(), f, "exec"), d)
    props.append(dict(id=p, **d["prop"]))
    checks.append(dict(property=p, quick_cmd="python3 tools/vp.py check %s --tier quick" % p, thorough_cmd="python3 tools/vp.py check %s --tier thorough" % p,
                       technique=d.get("technique", "contract-based deductive verification: contracts on the real functions, mechanically extracted (LLVM IR to C), every obligation discharged by CBMC"),
                       level=d.get("level", "proof"), level_note=d["level_note"]))
d = {}
f = os.path.join(ROOT, "checks", "na.py")
exec(compile(open(f).read(), f, "exec"), d)
for x in d["na"]:
    props.append(dict(id=x["id"], **x["prop"]))
    na.append(dict(property=x["id"], reason=x["reason"]))
props.sort(key=lambda x: x["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    for x in props:
        o.write(json.dumps(x) + "\n")
man = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na)
if d.get("hooks"):
    man["hooks"] = d["hooks"]
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
import jsonschema
for x in props:
    jsonschema.validate(x, json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(props), "properties,", len(checks), "claimed")
