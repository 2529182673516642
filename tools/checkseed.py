#!/usr/bin/python3
"checkseed.py ID...: the lines a planted bug removes belong to the original repository"
import subprocess, sys, re, os
root = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
for i in sys.argv[1:] or sorted(os.listdir("/verif/seeded")):
    fn = ln = None; bad = n = 0
    for l in open("/verif/seeded/%s/patch.diff" % i, encoding="latin-1"):
        if l.startswith("--- a/"): fn = l[6:].split("\t")[0].strip(); bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "--root", "HEAD", "--", fn]).decode("latin-1").split("\n")
        elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("+"): pass
        elif l.startswith("-"):
            n += 1; bad += not root.startswith(bl[ln - 1].split(" ")[0].strip("^")); ln += 1
        elif ln: ln += 1
    print(i, n, "removed", bad, "not original" if bad else "")
