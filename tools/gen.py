#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/propdefs.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as P  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{V}/properties.jsonl", "w", encoding="utf-8") as f:
    for p in P.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
for pid, c in P.CHECKS.items():
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} quick",
        "thorough_cmd": f"./check {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": c["technique"],
        "level": c.get("level", "model_checking"),
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "hooks": {"guard": "SMASH_VERIF (no hook is needed: nothing in /repo "
               "uses it)", "enable": "not applicable: the checks drive the "
               "public interfaces of the unmodified sources",
               "source_commits": []},
     "not_applicable": P.NOT_APPLICABLE,
     "notes": "See DESIGN.md. Checks compile /repo/src from the working tree; "
              "sources that include Pythia are compiled against stub/."}
with open(f"{V}/MANIFEST.json", "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json"))
    jsonschema.validate(m, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P.PROPS:
        jsonschema.validate(p, s)
    print("schemas ok")
except ImportError:
    pass
print(len(P.PROPS), "properties,", len(checks), "checks")

# ---- DESIGN.md ----
def wrap(s):
    import textwrap
    return "\n".join(textwrap.wrap(s, 79))


with open(f"{V}/tools/design_head.md", encoding="utf-8") as f:
    d = f.read()
d += "## Properties and how each is decided\n\n"
for p in P.PROPS:
    pid = p["id"]
    c = P.CHECKS.get(pid)
    d += f"### {pid} {p['title']}\n\n"
    d += wrap(p["statement"]) + "\n\n"
    if c:
        d += wrap(f"*Decided by* {c['technique']} (`harness/{c['harness']}.cc`"
                  f"). *Quick bounds:* {c['bounds']}." +
                  (f" *Thorough bounds:* {c['bounds_thorough']}."
                   if "bounds_thorough" in c else "") +
                  f" *Limits:* {c['note']}") + "\n\n"
        d += wrap("*Why tests cannot settle it:* " + p["why_tests_cant"] +
                  ".") + "\n\n"
    else:
        r = next(n for n in P.NOT_APPLICABLE if n["property"] == pid)
        d += wrap("*Not applicable:* " + r["reason"]) + "\n\n"
for part in ("design_findings.md", "design_seeded.md"):
    path = f"{V}/tools/{part}"
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            d += f.read() + "\n"
seeded = f"{V}/seeded"
rows = []
caught = {}
cpath = f"{V}/tools/caught.json"
if os.path.exists(cpath):
    caught = json.load(open(cpath))
if os.path.isdir(seeded):
    for b in sorted(os.listdir(seeded)):
        mp = f"{seeded}/{b}/meta.json"
        if os.path.exists(mp):
            m2 = json.load(open(mp))
            rows.append(f"| {b} | {m2['property']} | {m2['what_it_breaks']} | "
                        f"{caught.get(b, 'not run yet')} |")
if rows:
    d += ("## Planted bugs\n\n| id | property | what it breaks | "
          "caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
with open(f"{V}/DESIGN.md", "w", encoding="utf-8") as f:
    f.write(d)
