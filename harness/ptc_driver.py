# -*- coding: utf-8 -*-
"""Drive HitaextDoc and the scripts on parallel text documents (C18)."""
import sys
from files import xml_tree, Out, run_script
OUT = Out()
sys.stdout = OUT
import drv, os, tempfile, shutil, daeso
import xml.etree.cElementTree as et
from daeso.ptc.document import HitaextDoc
from daeso.pair import Pair

BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(daeso.__file__)))), "bin")
ATTR = ("ignore", "skip", "newline", "blankline", "uniq")


def project(d):
    o = {"method": d.get_alignment_method() or "none", "links": [], "elems": {}, "root": {}}
    o["fn"] = [drv.s(d.get_filename(x) if d.find("./%s/filename" % x).text else "") for x in ("from", "to")]
    for l in d.get_alignments():
        ks = sorted(l.keys())
        if l.tag != "link" or ks not in (["from_id", "from_tag", "to_id", "to_tag"], ["from_n", "from_tag", "to_n", "to_tag"]):
            o["links"].append([l.tag] + ks)
        else:
            o["links"].append([drv.s(l.get(k)) for k in (ks[1], ks[0], ks[3], ks[2])])
    for x in ("from", "to"):
        e = dict((a, [drv.s(t) for t in d.get_tags(x, a)]) for a in ATTR)
        e["tags"] = [drv.s(t) for t in d.get_elem_tags(x)]
        e["proots"] = [drv.s(t) for t in d.get_pseudo_root_tags(x)]
        if sorted(d.get_elem_dict(x, None)) != sorted(set(e["tags"])) or [d.get_elem(x, t).tag for t in e["tags"]] != e["tags"]:
            e["tags"].append("?")
        o["elems"][x] = e
        o["root"][x] = drv.s(d.get_pseudo_root(x) or "")
    return o


class H(object):
    def __init__(self, params):
        self.home = os.getcwd()
        self.w = tempfile.mkdtemp(dir=self.home)
        os.chdir(self.w)
        xml_tree("f.xml", params["from"])
        xml_tree("t.xml", params["to"])
        self.names = params.get("names", ["f.xml", "t.xml"])
        self.doc = HitaextDoc()
        self.trees = None
        self.written = []

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.w)

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        err = sys.stderr
        sys.stderr = OUT
        try:
            getattr(self, "do_" + op["op"])(op, ev)
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["tb"] = traceback.format_exc()[-700:]
        finally:
            sys.stderr = err
            OUT.on = False
            os.chdir(self.w)
        if not ev["exc"] and op["op"] != "find" and op.get("q", 1):
            o = {"doc": project(self.doc), "on": self.trees is not None}
            if self.trees:
                el = [list(t.getiterator()) for t in self.trees]
                pos = [dict((id(e), k + 1) for k, e in enumerate(x)) for x in el]
                o["af"] = [[pos[1].get(id(a), 0) for a in e.get("_alignments")] for e in el[0]]
                o["at"] = [[pos[0].get(id(a), 0) for a in e.get("_alignments")] for e in el[1]]
            ev["obs"] = o
            ev["disk"] = [{"file": f, "doc": self.ondisk(f)} for f in self.written]
        return ev

    def ondisk(self, f):
        """what the file holds, read without the framework"""
        r = et.parse(f).getroot()
        o = {"method": r.find("alignment").get("method") or "none", "links": [], "elems": {}, "root": {}}
        o["fn"] = [drv.s((r.find(x + "/filename").text or "").strip()) for x in ("from", "to")]
        for l in r.find("alignment"):
            k = "id" if "from_id" in l.attrib else "n"
            o["links"].append([drv.s(l.get("from_tag")), drv.s(l.get("from_" + k)), drv.s(l.get("to_tag")), drv.s(l.get("to_" + k))])
        for x in ("from", "to"):
            els = list(r.find(x + "/render/elements"))
            e = dict((a, [drv.s(c.tag) for c in els if c.get(a) == "True"]) for a in ATTR)
            e["tags"] = [drv.s(c.tag) for c in els]
            e["proots"] = e["uniq"]
            o["elems"][x] = e
            o["root"][x] = drv.s(r.find(x + "/render/elements").get("pseudo_root") or "")
        return o

    def el(self, side, k):
        return list(self.trees[side].getiterator())[k - 1]

    def do_new(self, op, ev):
        self.doc = HitaextDoc()

    def do_link(self, op, ev):
        from daeso.ptc.ielemtree import IndexElemTree
        ts = [IndexElemTree(f) for f in ("f.xml", "t.xml")]
        for t in ts:
            t.update()
        a, b = list(ts[0].getiterator())[op["i"] - 1], list(ts[1].getiterator())[op["j"] - 1]
        if op["how"] == "id":
            self.doc.add_id_alignment(a.tag, a.get("id"), b.tag, b.get("id"))
        else:
            self.doc.add_n_alignment(a.tag, a.get("_n"), b.tag, b.get("_n"))

    def do_method(self, op, ev):
        self.doc.set_alignment_method(str(op["m"]))

    def do_clear(self, op, ev):
        self.doc.clear_alignments()

    def do_fn(self, op, ev):
        self.doc.set_filename(op["side"], op["name"])

    def do_load(self, op, ev):
        old = [self.doc.find("./%s/filename" % x).text for x in ("from", "to")]
        self.doc.set_filename("from", "f.xml")
        self.doc.set_filename("to", "t.xml")
        try:
            self.trees = list(self.doc.get_doc_trees())
        finally:
            for x, n in zip(("from", "to"), old):
                self.doc.find("./%s/filename" % x).text = n

    def do_inject(self, op, ev):
        self.doc.inject_alignments(*self.trees)

    def do_extract(self, op, ev):
        self.doc.extract_alignments(*self.trees)

    def do_align(self, op, ev):
        a, b = self.el(0, op["i"]), self.el(1, op["j"])
        a.get("_alignments").append(b)
        b.get("_alignments").append(a)

    def do_free(self, op, ev):
        a, b = self.el(0, op["i"]), self.el(1, op["j"])
        a.get("_alignments").remove(b)
        b.get("_alignments").remove(a)

    def do_elems(self, op, ev):
        from xml.etree.cElementTree import ElementTree
        self.doc.init_elems(op["side"], ElementTree(file={"from": "f.xml", "to": "t.xml"}[op["side"]]))

    def do_addelem(self, op, ev):
        self.doc.add_elem(op["side"], op["tag"])

    def do_setelem(self, op, ev):
        self.doc.get_elem(op["side"], op["tag"]).set(op["a"], op["v"])

    def do_root(self, op, ev):
        self.doc.set_pseudo_root(op["side"], op["tag"])

    def do_write(self, op, ev):
        f = op["file"]
        for x, n in zip(("from", "to"), self.names):
            if not self.doc.find("./%s/filename" % x).text:
                pass
        if op.get("how") == "file":
            o = open(f, "w")
            self.doc.write(o)
            o.close()
        else:
            self.doc.write(f)
        if f not in self.written:
            self.written.append(f)

    def do_read(self, op, ev):
        self.doc = HitaextDoc(file=op["file"])

    def do_toid(self, op, ev):
        # the texts are where the documents say
        OUT.start()
        try:
            rc = run_script(os.path.join(BIN, "ptc_n_to_id.py"), op["files"] + (["-V"] if op.get("V") else []))
        finally:
            OUT.stop()
        if rc:
            raise RuntimeError(rc)

    def do_chdir(self, op, ev):
        OUT.start()
        args = list(op["files"])
        if op["dir"]:
            args += ["-d", op["dir"]]
        if op["dry"]:
            args.append("-t")
        try:
            rc = run_script(os.path.join(BIN, "ptc_chdir.py"), args)
        finally:
            OUT.stop()
        if rc:
            raise RuntimeError(rc)

    def do_find(self, op, ev):
        """op: given name (relative), here: which of the three places hold the text"""
        d = drv.s(tempfile.mkdtemp(dir=self.w))
        try:
            docs = op.get("docs", "docs")
            if op.get("bytes"):
                docs = docs.encode("utf-8")
            dd = os.path.join(d, drv.s(docs))
            os.mkdir(dd)
            x = HitaextDoc()
            for s in ("from", "to"):
                x.set_filename(s, op["name"])
            x.write(os.path.join(dd, "doc.ptc"))
            for p, yes in zip([os.path.join(d, op["name"]), os.path.join(dd, op["name"]), os.path.join(dd, os.path.basename(op["name"]))], op["here"]):
                if yes:
                    if not os.path.isdir(os.path.dirname(p)):
                        os.makedirs(os.path.dirname(p))
                    open(p, "w").close()
            os.chdir(d)
            x = HitaextDoc(file=os.path.join(docs, "doc.ptc"))
            fn = x.get_filename(op["side"], True)
            ev["plain"] = x.get_filename(op["side"])
            docs = drv.s(docs)
            names = [("given", op["name"]), ("relative", os.path.join(docs, op["name"])), ("beside", os.path.join(docs, os.path.basename(op["name"])))]
            ev["found"] = ([k for k, v in names if v == drv.s(fn)] or [drv.s(fn)])[0]
            if ev["plain"] != op["name"]:
                ev["found"] = "plain"
        finally:
            os.chdir(self.w)
            shutil.rmtree(d)


drv.main(H)
