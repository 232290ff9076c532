#!/usr/bin/env python3
"""Assembles DESIGN.md from the check modules, the seeded bugs and the notes below (run by hand, result is committed)."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
os.chdir(H)
def consts(p):
    o = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TITLE", "EXPLANATION", "RULES", "GROUPS", "TECHNIQUE"):
            o[n.targets[0].id] = ast.literal_eval(n.value)
    return o
props = [json.loads(l) for l in open("properties.jsonl")]
notes = {}
cur = None
for l in open("design_notes.md"):
    m = re.match(r"^@(C\d\d|HEAD|TAIL)\s*$", l)
    if m:
        cur = m.group(1)
        notes[cur] = ""
    else:
        notes[cur] += l
na = dict(re.match(r"(C\d\d)\s+(.*)", l).groups() for l in open("not_applicable.txt") if l.strip())
out = [notes["HEAD"].strip() + "\n"]
out.append("\n## Properties\n")
for p in props:
    i = p["id"]
    f = "sa/checks/%s.py" % i.lower()
    out.append("\n### %s %s\n\n" % (i, p["title"]))
    if not os.path.exists(f):
        out.append("Not applicable: %s\n" % na.get(i, "not decided"))
        continue
    c = consts(f)
    out.append(c["EXPLANATION"] + "\n\nRules (each discharged per function/path/call site; the evidence lists the counts):\n\n")
    for k, v in c["RULES"].items():
        out.append("- `%s`: %s\n" % (k, v))
    if i in notes:
        out.append("\n" + notes[i].strip() + "\n")
out.append("\n## Planted bugs and which check catches them\n\n| bug | property | caught by | needs |\n|---|---|---|---|\n")
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m.get("caught_by", m["property"]), m["needs"].replace("|", "/").replace("\n", " ")))
n = 0
rows = []
for f in sorted(glob.glob("dev/m*.txt")):
    bl = re.findall(r"^### (\S+)(.*)$", open(f).read(), re.M)
    bad = [b for b in bl if b[1].strip()]
    rows.append("| %s | %d | %d |\n" % (f, len(bad), len(bl) - len(bad)))
out.append("\nDevelopment mutants (`dev/mut.py FILE`; every block that names a check has to be caught, every block without one has to stay quiet; all compile):\n\n| set | breaking changes | behaviour-preserving edits |\n|---|---|---|\n" + "".join(rows))
out.append("\n" + notes["TAIL"].strip() + "\n\n## Defects found\n\n")
for l in open("known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("- %s (fixed in %s): %s\n" % m.groups())
    m = re.match(r"finding: (.*)", l)
    if m:
        out.append("- recorded, not repaired: %s\n" % m.group(1))
open("DESIGN.md", "w").write("".join(out))
