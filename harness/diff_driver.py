# -*- coding: utf-8 -*-
"""Drive the comparison of parallel graph corpora (C16)."""
import sys
from files import bank_file, corpus_file, Out, run_script
OUT = Out()
sys.stdout = OUT
import drv, os, tempfile, shutil, re, codecs, daeso, evalreport
import xml.etree.cElementTree as et
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.diff import pgc_diff

BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(daeso.__file__)))), "bin")


def parse(text, annots):
    """report -> heading, graph pairs with sections of entries"""
    r = {"head": [], "pairs": [], "rest": u""}
    lines = text.split(u"\n")
    i = 0
    sec = cur = None
    titles = {u"Identical": "ident", u"Relation different": "rel", annots[0] + u" only": "only1", annots[1] + u" only": "only2"}
    while i < len(lines):
        l = lines[i]
        if l and l == l[0] * len(l) and l[0] in u"#=-" and len(l) >= 80:
            j = i + 1
            while lines[j] != l:
                j += 1
            body = lines[i + 1:j]
            if l[0] == u"#":
                r["head"] = body
            elif l[0] == u"=":
                cur = {"title": body[0], "head": [], "comments": [], "sections": []}
                if body != [u"Graph pair %d" % (len(r["pairs"]) + 1)]:
                    r["rest"] += u"|".join(body)
                r["pairs"].append(cur)
                sec = None
            elif body[0].startswith(u"Comments by "):
                sec = [body[0][len(u"Comments by "):], u""]
                cur["comments"].append(sec)
            else:
                sec = {"title": titles.get(body[0], body[0]), "entries": []}
                cur["sections"].append(sec)
            i = j + 1
            continue
        if isinstance(sec, dict) and re.match(u"#\\d+:", l):
            e = {"n": int(l.strip()[1:-1])}
            e["s"] = node(lines[i + 1])
            m = re.match(u"<<< (.*) / (.*) >>>$", lines[i + 2])
            e["r1"], e["r2"] = m.group(1), m.group(2)
            e["t"] = node(lines[i + 3])
            sec["entries"].append(e)
            i += 4
            continue
        if l.strip():
            if isinstance(sec, list):
                sec[1] = (sec[1] + u"\n" + l).strip()
            elif cur and not sec:
                cur["head"].append(l.rstrip())
            else:
                r["rest"] += l
        i += 1
    return r


def node(l):
    m = re.match(u"\\((.*?)\\) (.*) \\[(.*):(.*)\\]: \"(.*)\"$", l)
    return {"id": m.group(1), "label": m.group(2), "begin": m.group(3), "end": m.group(4), "text": m.group(5)}


class H(object):
    def __init__(self, params):
        self.d = tempfile.mkdtemp(dir=os.getcwd())
        self.p = params
        for side in "st":
            bank_file(os.path.join(self.d, side + ".graphml"),
                      [dict(id="%s%d" % (side, k), tokens=g[side]["text"], root=g[side]["nodes"][0]["id"],
                            nodes=[[n["id"], n["label"], n["text"], dict(begin=n["begin"], end=n["end"])] for n in g[side]["nodes"]],
                            edges=g[side]["edges"]) for k, g in enumerate(params["pairs"])], keys=["begin", "end"])

    def close(self):
        shutil.rmtree(self.d)

    def corpus(self, name, al, which):
        f = os.path.join(self.d, name)
        corpus_file(f, [["s", "s.graphml"], ["t", "t.graphml"]], self.p.get("rels2", self.p["rels"]) if which else self.p["rels"],
                    [dict(fb="s", tb="t", sg="s%d" % k, tg="t%d" % k, al=a) for k, a in enumerate(al)])
        t = et.parse(f)
        for k, e in enumerate(t.getroot().findall("aligned_graphs/graph_pair")):
            c = self.p["pairs"][k]["comments"][which][1]
            if c or k % 2:
                m = et.Element("graph_meta_data")
                et.SubElement(m, "comment").text = c
                e.insert(0, m)
        o = open(f, "wb")
        t.write(o, "utf-8")
        o.close()
        return f

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            self.diff(op, ev)
        except Exception:
            ev["exc"] = drv.exc_name()
            OUT.on = False
            import traceback
            ev["tb"] = traceback.format_exc()[-600:]
        return ev

    def diff(self, op, ev):
        f1 = self.corpus("c1.pgc", op["A"], 0)
        f2 = self.corpus("c2.pgc", op["B"], 1)
        an = [c[0] for c in self.p["pairs"][0]["comments"]] if self.p["pairs"] else ["A", "B"]
        ev["comments"] = op.get("comments", False)
        names = ["c1", "c2"]
        if op.get("script"):
            args = [f1, f2, "-1", an[0].encode("utf-8"), "-2", an[1].encode("utf-8")]
            names = [f1, f2]
            if op.get("comments"):
                args.append("-c")
            if op["ident"]:
                args.append("-i")
            if op["rels"]:
                args += ["-r"] + op["rels"]
            elif op.get("norel") == "list":
                args.append("-r")
            if op.get("evaluate"):
                args.append("-e")
            b1, b2 = open(f1).read(), open(f2).read()
            OUT.start()
            try:
                rc = run_script(os.path.join(BIN, "pgc_diff.py"), args)
            finally:
                text = OUT.stop()
            ev["stray"] = "" if rc == 0 else "exit %s" % rc
            ev["kept"] = b1 == open(f1).read() and b2 == open(f2).read()
        else:
            c1, c2 = ParallelGraphCorpus(inf=f1), ParallelGraphCorpus(inf=f2)
            fn = os.path.join(self.d, "report")
            f = open(fn, "wb")
            OUT.start()
            try:
                pgc_diff(c1, c2, corpus_name1="c1", corpus_name2="c2", annot1=an[0].encode("utf-8"), annot2=an[1].encode("utf-8"),
                         words_only=op["words"], show_comments=op.get("comments", False), show_ident=op["ident"],
                         relations=op["rels"] or {"list": [], "tuple": ()}.get(op.get("norel")), out=f)
            finally:
                ev["stray"] = OUT.stop()
                f.close()
            text = codecs.open(fn, encoding="utf-8").read()
            ev["kept"] = self.back(c1) == self.want(op["A"]) and self.back(c2) == self.want(op["B"])
        ev["names"] = [u"%s corpus: %s" % (a, n) for a, n in zip(an, names)]
        if op.get("evaluate"):
            text = text if isinstance(text, unicode) else text.decode("utf-8")
            lines = text.split(u"\n")
            k = lines.index(u"Alignment only (regardlless of relation)") - 1
            ev["scores"] = evalreport.parse(u"\n".join(lines[k:]), ["equals", "restates", "specifies", "generalizes", "intersects"])
            text = u"\n".join(lines[:k]) + u"\n"
        ev["report"] = parse(text, an)

    def back(self, c):
        return [sorted([drv.s(n.source), drv.s(n.target), drv.s(r)] for n, r in x.alignments()) for x in c]

    def want(self, c):
        return [sorted([s, t, drv.s(r)] for s, t, r in al) for al in c]


drv.main(H)
