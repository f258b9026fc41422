#!/usr/bin/env python3
"""Fills tools/DESIGN.in.md from properties, the evidence of the last quick runs, tools/costs.json and seeded/ -> DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(H, p)).read()
props = [json.loads(l) for l in R("properties.jsonl").splitlines()]
man = {c["property"]: c for c in json.loads(R("MANIFEST.json"))["checks"]}
costs = json.loads(R("tools/costs.json")) if os.path.exists(os.path.join(H, "tools/costs.json")) else {}
out = []
for p in props:
    i = p["id"]
    if i not in man:
        continue
    e = json.loads(R(f"evidence/{i}.json"))
    c = e["coverage"]
    q = costs.setdefault(i, {})
    if c.get("exhaustive"):
        q[e["tier"]] = [round(e["wall_s"]), c["states"], c["transitions"]]
    f = lambda t: f"{t[0]} s, {t[1]:,} states, {t[2]:,} transitions" if t else "not measured"
    out.append(f"**{i} {p['title']}.** {man[i]['level_note']}\n"
               f"*Bounds:* {c['bounds']}.\n"
               + "".join(f"*Assumes:* {a}.\n" for a in e["assumptions"])
               + f"*Cost:* quick {f(q.get('quick'))}; thorough {f(q.get('thorough'))}.\n")
json.dump(costs, open(os.path.join(H, "tools/costs.json"), "w"), indent=0, sort_keys=True)
known = R("known_findings.txt").splitlines()
nfix = sum(1 for l in known if l.startswith("fixed:"))
rows = ["| planted change | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.loads(R(f"seeded/{d}/meta.json"))
    by = m.get("caught_by", m["property"])
    rows.append(f"| `{d}`: {m['what_it_breaks']} | {m['needs']} | {by} |")
s = R("tools/DESIGN.in.md")
s = s.replace("@@TABLE@@", "\n".join(out)).replace("@@NFIX@@", str(nfix)).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(H, "DESIGN.md"), "w").write(s)
