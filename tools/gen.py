#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [f"{V}/lib", f"{V}/tools"]
import props, registry
claimed = [i for i in sorted(props.DATA) if i in registry.P]
missing = [i for i in registry.P if i not in props.DATA]
if missing: print("registered without text:", missing)
unreg = [i for i in props.DATA if i not in registry.P and i not in props.NA]
if unreg: print("text without check:", unreg)
with open(f"{V}/properties.jsonl", "w") as f:
    for i in sorted(claimed) + sorted(props.NA):
        d = props.DATA[i]
        o = dict(id=i, title=d["title"], statement=d["statement"], quantifier=dict(over=d["over"], text=d["qt"]), why_tests_cant=d["why"],
                 anchors=dict(files=d["files"], mechanism=[dict(name=a, where=b) for a, b in d["mech"]], hook_needed=None))
        if d["state"]: o["anchors"]["state"] = d["state"]
        if d["observe"]: o["anchors"]["observe_at"] = d["observe"]
        assert len(o["title"]) <= 80, i
        f.write(json.dumps(o) + "\n")
checks = [dict(property=i, quick_cmd=f"python3 lib/check.py {i} quick", thorough_cmd=f"python3 lib/check.py {i} thorough", evidence_file=f"evidence/{i}.json",
               technique=props.DATA[i]["tech"], level="other",
               level_note="Bounded symbolic verification: " + props.DATA[i]["note"] + ". Trusts clang's lowering, the executor in engine/, z3, and the models named in the evidence file.") for i in claimed]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=i, reason=props.NA[i]) for i in sorted(props.NA)],
         notes="Checks lower /repo's current sources with clang on every run and execute them symbolically; see DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(f"{V}/properties.jsonl"): jsonschema.validate(json.loads(l), s)
print(len(claimed), "claimed", len(props.NA), "not applicable")
