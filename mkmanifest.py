#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import P

HERE = os.path.dirname(os.path.abspath(__file__))
P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"] or ["public read and save entry points"], "hook_needed": None},
        }) + "\n")
m = {"version": 1, "setup_cmd": "python3 extract.py", "checks": [], "not_applicable": [],
     "notes": "All checks analyse the type-checked MIR of /repo's current working tree, extracted by driver/ (a rustc_private driver, nightly) through extract.py."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                            "thorough_cmd": f"python3 check.py {p['id']} thorough",
                            "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["level_note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

# DESIGN.md
sec = []
for p in P:
    sec.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    if p["na"]:
        sec.append(f"Not applicable: {p['na']}\n")
    else:
        sec.append(f"*Method*: {p['technique']}. {p['level_note']}\n")
        if p.get("design"):
            sec.append(p["design"] + "\n")
seeds = json.load(open(os.path.join(HERE, "seeds.json"))) if os.path.exists(os.path.join(HERE, "seeds.json")) else {}
tab = ["| change | property | needs | caught | by |", "|---|---|---|---|---|"]
for n in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    f = os.path.join(HERE, "seeded", n, "meta.json")
    if not os.path.exists(f):
        continue
    mm = json.load(open(f))
    r = seeds.get(n, {})
    tab.append(f"| {n} | {mm['property']} | {mm['needs']} | {'yes' if r.get('caught') else 'no'} | `{r.get('rule', '')}` |")
t = open(os.path.join(HERE, "design.tmpl.md")).read()
open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("SECTIONS", "\n".join(sec)).replace("SEEDTABLE", "\n".join(tab)))
