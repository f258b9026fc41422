#!/usr/bin/env python3
"""The source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None,
         built=False, technique=None, note=None, level="model_checking"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=state, hook=hook, built=built,
                  technique=technique, note=note, level=level))
BUILT_IDS = set(open(os.path.join(HERE, "tools", "built.ids")).read().split())
BUILT = lambda i: i in BUILT_IDS
exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": p["hook"]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["built"]:
        checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
                       "thorough_cmd": f"./check.sh {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness crates under mc/ compile /repo/src as it is (mc/llamapun: the whole crate against the shims in mc/shims; mc/part: the modules that stand alone). The shim of std, rayon and jwalk is the controlled scheduler and fault injector."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
