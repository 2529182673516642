# -*- coding: utf-8 -*-
"""Drive daeso.utils.etree (C32): element trees under edits, comparison, indenting and writing."""
import sys
from files import Out
OUT = Out()
sys.stdout = OUT
import drv, os, tempfile, shutil, StringIO
import xml.etree.cElementTree as et
from daeso.utils import etree


def dump(e):
    return {"tag": drv.s(e.tag), "text": drv.s(e.text or u""), "tail": drv.s(e.tail or u""),
            "attr": sorted([drv.s(k), drv.s(v)] for k, v in e.attrib.items()), "kids": [dump(c) for c in e]}


class H(object):
    def __init__(self, params):
        self.d = tempfile.mkdtemp(dir=os.getcwd())
        self.objs = params["objs"]
        self.h = dict((o, et.Element("r")) for o in self.objs)

    def close(self):
        shutil.rmtree(self.d)

    def val(self, op):
        v = op["v"]
        if v == "":
            return None if op.get("alt") else ""
        try:
            return str(v) if op.get("alt") else v
        except UnicodeEncodeError:
            return v

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            self.do(op, ev)
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["tb"] = traceback.format_exc()[-700:]
            return ev
        ev["trees"] = dict((o, dump(self.h[o])) for o in self.objs)
        ev["eq"] = [[x, y, drv.b(etree.equals(self.h[x], self.h[y]))] for x in self.objs for y in self.objs]
        return ev

    def do(self, op, ev):
        k = op["op"]
        if k == "indent":
            etree.indent(self.h[op["o"]])
            return
        if k == "file":
            return self.file(op, ev)
        e = self.h[op["o"]]
        for i in op["p"]:
            e = e[i - 1]
        if k in ("text", "tail"):
            setattr(e, k, self.val(op))
        elif k == "tag":
            e.tag = self.val(op)
        elif k == "attr":
            if op["v"] == "":
                e.attrib.pop(op["k"], None)
            else:
                e.set(op["k"], self.val(op))
        elif k == "add":
            et.SubElement(e, self.val(op))
        elif k == "del":
            e.remove(e[op["i"] - 1])
        elif k == "swap":
            x = e[op["i"] - 1]
            e.remove(x)
            e.insert(op["i"], x)

    def file(self, op, ev):
        kw = {}
        if op["pretty"] or op.get("alt"):
            kw["pprint"] = op["pretty"]
        if op.get("enc"):
            kw["encoding"] = str(op["enc"])
        fn = os.path.join(self.d, "t.xml")
        tree = et.ElementTree(self.h[op["x"]])
        how = op.get("how", "name")
        ev["open"] = True
        if how == "stdout":
            OUT.start()
            try:
                etree.write(tree, **kw)
            finally:
                text = OUT.stop()
            data = text.encode("utf-8")
        else:
            if how == "name":
                etree.write(tree, fn, **kw)
                data = open(fn, "rb").read()
            elif how == "file":
                f = open(fn, "wb")
                f.write("<!-- before -->"[:0])
                etree.write(tree, f, **kw)
                ev["open"] = not f.closed        # the caller's file stays open
                f.close()
                data = open(fn, "rb").read()
            else:
                f = StringIO.StringIO()
                etree.write(tree, file=f, **kw)
                data = f.getvalue()
        ev["decl"] = data.startswith("<?xml") and data.count("<?xml") == 1
        self.h[op["o"]] = et.fromstring(data)


drv.main(H)
