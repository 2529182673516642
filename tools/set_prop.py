#!/usr/bin/python3
"""set_prop.py ID [title=..] < statement : replaces the statement of a property in gen_properties.py"""
import sys, re, os
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen_properties.py")
s = open(F).read()
i = s.index('p("%s", ' % sys.argv[1])
a, b = s[:i], s[i:]
lines = b.split("\n")
t = " ".join(sys.stdin.read().split())
if t:
    lines[1] = '  "%s",' % t.replace("\\", "\\\\").replace('"', '\\"')
for x in sys.argv[2:]:
    k, v = x.split("=", 1)
    if k == "title":
        lines[0] = 'p("%s", "%s",' % (sys.argv[1], v)
    elif k == "files":
        old = re.match(r'\s*"(.*)",', lines[4]).group(1)
        lines[4] = '  "%s",' % v
open(F, "w").write(a + "\n".join(lines))
