#!/usr/bin/python3
"""Appends missing "fixed:" lines to known-findings.txt: gen_fixed.py PROP SUBSTRING [PROP SUBSTRING ...] """
import subprocess, sys, os
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.txt")
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
have = open(F).read()
a = sys.argv[1:]
with open(F, "a") as f:
    for prop, sub in zip(a[::2], a[1::2]):
        m = [(h, s) for h, s in log if s.startswith("fix: ") and sub in s]
        assert len(m) == 1, (sub, m)
        l = "fixed: property=%s %s %s" % (prop, m[0][0], m[0][1][5:])
        if l not in have:
            f.write(l + "\n")
have = open(F).read()
for h, s in log:
    if s.startswith("fix:") and " %s " % h not in have:
        print("missing:", h, s)
