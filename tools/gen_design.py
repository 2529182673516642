#!/usr/bin/python3
"""Writes /verif/DESIGN.md from design_head.md, design_props.py, properties.jsonl, known-findings.txt, seeded/ and design_tail.md."""
import json, os, re, subprocess
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
exec(open(T + "/design_props.py").read())
out = [open(T + "/design_head.md").read()]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
for p in props:
    i = p["id"]; x = D[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("- *specification* (`%s`): %s" % ("`, `".join(m.strip() + ".tla" for m in x[0].split(",")), x[2]))
    out.append("- *model*: %s." % x[3])
    out.append("- *driver* `%s`; *random and observed*: %s" % (x[1], x[4]))
    for n in x[5:]:
        out.append("- *scope*: " + n)
    out.append("")
k = [l.strip() for l in open(V + "/known-findings.txt")]
out.append("## 4. Defects found in the framework\n\nEach was shown by a check on the real code and repaired with a `fix:` commit in /repo:\n")
out.append("| property | commit | what failed |\n|---|---|---|")
for l in k:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("| %s | %s | %s |" % m.groups())
n = len([l for l in k if l.startswith("finding:")])
out.append("\nRecorded, not repaired: %d findings, all of C22 (see its scope note): each names its input and the failing clauses, so any other outcome on these inputs, and any violation on other inputs, is still reported.\n" % n)
out.append("## 5. Planted bugs (`seeded/`)\n\nEach was confirmed to pass the 154 stable tests and to fail its own demonstration; all are caught by the check of their property"
           " (exceptions are named in the last column).\n")
out.append("| bug | property | what it breaks | needs |\n|---|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
out.append("")
out.append(open(T + "/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
