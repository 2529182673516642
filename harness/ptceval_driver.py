# -*- coding: utf-8 -*-
"""Drive scoring and comparison of text alignments (C19)."""
import sys
from files import xml_tree, Out, run_script
OUT = Out()
sys.stdout = OUT
import drv, os, tempfile, shutil, daeso, re
from daeso.ptc.document import HitaextDoc
from daeso.ptc.evaluate import eval_alignment
from daeso.ptc.diff import print_diff
import xml.etree.cElementTree as et

BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(daeso.__file__)))), "bin")


def nth(t):
    cnt, res = {}, []
    for x in t:
        cnt[x["tag"]] = cnt.get(x["tag"], 0) + 1
        res.append(cnt[x["tag"]])
    return res


def num(x):
    return int(round(float(x) * 100))


class H(object):
    def __init__(self, params):
        self.home = os.getcwd()
        self.w = tempfile.mkdtemp(dir=self.home)
        os.chdir(self.w)
        self.docs = params["docs"]
        for k, d in enumerate(self.docs):
            xml_tree("f%d.xml" % k, d["from"])
            xml_tree("t%d.xml" % k, d["to"])

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.w)

    def ptc(self, fn, k, al, how):
        """write a parallel text document without the framework"""
        d = self.docs[k]
        r = et.Element("hitaext")
        for side in ("from", "to"):
            e = et.SubElement(r, side)
            et.SubElement(e, "filename").text = "%s%d.xml" % (side[0], k)
            et.SubElement(et.SubElement(e, "render"), "elements")
        a = et.SubElement(r, "alignment")
        if how != "none":
            a.set("method", how)
        nf, nt = nth(d["from"]), nth(d["to"])
        for i, j in al:
            x, y = d["from"][i - 1], d["to"][j - 1]
            if how == "id":
                et.SubElement(a, "link", from_tag=x["tag"], from_id=x["id"], to_tag=y["tag"], to_id=y["id"])
            else:
                et.SubElement(a, "link", from_tag=x["tag"], from_n=str(nf[i - 1]), to_tag=y["tag"], to_n=str(nt[j - 1]))
        f = open(fn, "wb")
        et.ElementTree(r).write(f, "utf-8")
        f.close()

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            getattr(self, "do_" + op["op"])(op, ev)
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["tb"] = traceback.format_exc()[-700:]
        finally:
            OUT.on = False
        return ev

    def files(self, op):
        res = []
        for k, r in enumerate(op["rows"]):
            a, b = "true%d.ptc" % k, "pred%d.ptc" % k
            self.ptc(a, k, r["T"], op["how"][0])
            self.ptc(b, k, r["P"], op["how"][1])
            res.append((a, b))
        return res

    def capture(self, fn, *args, **kw):
        OUT.start(kw.get("encoding"))
        if fn is print_diff:
            OUT.enc = kw.get("encoding", "utf-8")
        elif fn is run_script and "ptc_diff" in args[0]:
            OUT.enc = args[1][args[1].index("-e") + 1] if "-e" in args[1] else "utf-8"
        try:
            rc = fn(*args, **kw)
        finally:
            text = OUT.stop()
        if rc:
            raise RuntimeError(rc)
        return text

    def do_eval(self, op, ev):
        prs = self.files(op)
        before = [open(f).read() for p in prs for f in p]
        ev["labels"] = [b for a, b in prs]
        if op["via"] == "script":
            args = ["-t"] + [a for a, b in prs] + ["-p"] + [b for a, b in prs]
            if op["tag"] != "s":
                args += ["--tag", op["tag"]]
            text = self.capture(run_script, os.path.join(BIN, "ptc_eval.py"), args)
        elif op["via"] == "labels":
            ev["labels"] = ["label %d" % k for k in range(len(prs))]
            text = self.capture(eval_alignment, prs, str(op["tag"]), ev["labels"])
        else:
            text = self.capture(eval_alignment, [(os.path.join(self.w, a), os.path.join(self.w, b)) for a, b in prs], str(op["tag"]))
        lines = [l for l in text.split("\n") if l.strip()]
        rep = {"rows": [], "total": {}}
        ev["rest"] = u""
        if [w.strip() for w in lines[0].split()] != "#true: #pred: #common: ratio: prec: rec: f-score: label:".split():
            ev["rest"] = lines[0]
        seps = 0
        for l in lines[1:]:
            if set(l) == set("-"):
                seps += 1
                continue
            p = l.split(None, 7)
            o = {"true": int(p[0]), "pred": int(p[1]), "common": int(p[2]), "ratio": num(p[3]), "prec": num(p[4]), "rec": num(p[5]), "f": num(p[6])}
            if seps == 1:
                o["label"] = p[7]
                rep["rows"].append(o)
            else:
                rep["total"] = o
        ev["report"] = rep
        ev["kept"] = before == [open(f).read() for p in prs for f in p]

    def do_diff(self, op, ev):
        a, b = self.files(op)[0]
        before = [open(f).read() for f in (a, b)]
        if op["via"] == "script":
            args = [a, b]
            if op["tag"] != "s":
                args += ["-t", op["tag"]]
            if op.get("enc"):
                args += ["-e", op["enc"]]
            text = self.capture(run_script, os.path.join(BIN, "ptc_diff.py"), args)
        elif op["via"] == "docs":
            text = self.capture(print_diff, HitaextDoc(file=a), HitaextDoc(file=b), str(op["tag"]))
        else:
            text = self.capture(print_diff, a, b, str(op["tag"]), encoding=str(op.get("enc", "utf-8")))
        ev["diffs"] = []
        ev["rest"] = u""
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            m = re.match(r"#(\d+) (true|predicted) only \((.*), (.*)\):?$", lines[i])
            if m:
                ev["diffs"].append({"n": int(m.group(1)), "which": m.group(2), "fid": m.group(3), "tid": m.group(4), "ftext": lines[i + 1], "ttext": lines[i + 2]})
                i += 3
            else:
                ev["rest"] += lines[i].strip()
                i += 1
        ev["kept"] = before == [open(f).read() for f in (a, b)]


drv.main(H)
