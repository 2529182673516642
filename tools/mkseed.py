#!/usr/bin/python3
"""Build seeded/<id>/ from tools/seeds/<name>.py-style entries: used as a library by the seed lists."""
import os, subprocess, json, shutil, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
DEMO_SH = """#!/bin/bash
# exit 0 if the property holds for the history in demo.py
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 PATH=/opt/jy/bin:$PATH
export JYTHONPATH=/repo/lib:/opt/jy/lib
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cd "$work" && jython2 "$here/demo.py" 2>&1
"""


def seed(id, prop, edits, needs, breaks, demo, demo_sh=DEMO_SH):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        out = []
        for fn in dict.fromkeys(e[0] for e in edits):
            src = open(os.path.join("/repo", fn), encoding="utf-8", errors="surrogateescape", newline="").read()
            new = src
            for f, a, b in edits:
                if f == fn:
                    assert new.count(a) == 1, (id, fn, new.count(a), a)
                    new = new.replace(a, b)
            p, q = os.path.join(w, "a", fn), os.path.join(w, "b", fn)
            for x, t in ((p, src), (q, new)):
                os.makedirs(os.path.dirname(x), exist_ok=True)
                open(x, "w", encoding="utf-8", errors="surrogateescape", newline="").write(t)
            r = subprocess.run(["diff", "-u", "a/" + fn, "b/" + fn], cwd=w, stdout=subprocess.PIPE)
            out.append(r.stdout)
        open(os.path.join(d, "patch.diff"), "wb").write(b"".join(out))
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write("# -*- coding: utf-8 -*-\n" + demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
