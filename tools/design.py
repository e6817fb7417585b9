#!/usr/bin/env python3
"""DESIGN.md: hand-written parts (tools/design/*.md) around the per-property section made from the registry."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [f"{V}/lib", f"{V}/tools"]
import props, registry
out = [open(f"{V}/tools/design/top.md").read(), "\n## Properties and how each is decided\n"]
for i in sorted(registry.P):
    d, s = props.DATA[i], registry.P[i]
    us = s["units"] if isinstance(s, dict) else s.units
    g = lambda u, k: u[k] if isinstance(u, dict) else getattr(u, k)
    sg = lambda k: (s.get(k) if isinstance(s, dict) else getattr(s, k, None)) or ""
    q = [u for u in us if not (u.get("thorough") if isinstance(u, dict) else getattr(u, "thorough", False))]
    t = [u for u in us if u not in q]
    out.append(f"### {i} {d['title']}\n")
    out.append(f"*Holds:* {d['statement']}\n")
    out.append(f"*Over:* {d['qt']}. *Why tests cannot:* {d['why']}\n")
    out.append(f"*Method:* {sg('explanation')}.\n")
    out.append(f"*Bounds:* {d['note']}. Units, each a symbolic run with its own bounds: " + ", ".join(g(u, "name") for u in q) + (f"; thorough adds {', '.join(g(u, 'name') for u in t)}" if t else "") + ".\n")
    a = sg("assumptions")
    if a: out.append("*Assumes:* " + "; ".join(a) + ".\n")
    if sg("outside"): out.append(f"*Outside:* {sg('outside')}.\n")
out.append("### Not applicable\n")
for i in sorted(props.NA): out.append(f"- **{i}** {props.DATA[i]['title']}: {props.NA[i]}.\n")
fixes = "\n".join(f"- {d['property']} `{d['commit'][:7]}`: {d['what'].split(d['commit'][:7] + ' ', 1)[-1]}." for d in map(json.loads, open(f"{V}/known-findings.jsonl")) if d["status"] == "fixed")
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['property']} quick |")
out.append(open(f"{V}/tools/design/bottom.md").read().replace("@FIXES@", fixes).replace("@SEEDS@", "\n".join(seeds)))
open(f"{V}/DESIGN.md", "w").write("\n".join(out))
