"""Writes DESIGN.md from the texts below, the check modules and tools/seed_results.txt (output of runseeds.py).
run: PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif:/repo /opt/venv/bin/python tools/mkdesign.py"""
import importlib, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(V + "/tools/design_head.md").read()
TAIL = open(V + "/tools/design_tail.md").read()
notes = {}
cur = None
for l in open(V + "/tools/design_notes.md"):
    m = re.match(r"# (C\d\d)", l)
    if m:
        cur = m.group(1)
        notes[cur] = ""
    elif cur:
        notes[cur] += l
out = [HEAD.rstrip() + "\n\n"]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    m = importlib.import_module("mc." + p["id"].lower())
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    out.append(notes.get(p["id"], "").strip() + "\n\n")
    out.append("* Enumerated: %s\n" % m.RULE)
    for t in ("quick", "thorough"):
        out.append("* Bounds (%s): %s.\n" % (t, m.BOUNDS[t].rstrip(".")))
    if m.ASSUMPTIONS:
        out.append("* Assumptions: %s.\n" % "; ".join(m.ASSUMPTIONS))
    out.append("\n")
res = {}
for l in open(V + "/tools/seed_results.txt"):
    w = l.split()
    if len(w) > 1:
        res[w[0]] = w[1]
out.append("## Planted bugs\n\nEach is run against its own property's quick check (`tools/runseeds.py`).\n\n| bug | property | needs | outcome |\n|---|---|---|---|\n")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    o = {"CAUGHT": "caught", "MISSED": "missed"}.get(res.get(d), "not run")
    if m.get("first_missed"):
        o += " (missed at first)"
    out.append("| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "\\|"), o))
out.append("\n" + TAIL)
open(V + "/DESIGN.md", "w").write("".join(out))
