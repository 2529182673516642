# -*- coding: utf-8 -*-
"""Drive IndexElemTree (C17)."""
import drv, os, codecs
from daeso.ptc.ielemtree import IndexElemTree
from files import xml_tree


class H(object):
    def __init__(self, params):
        self.fn = "doc.xml"
        xml_tree(self.fn, params["tree"])
        self.t = IndexElemTree(self.fn)

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            if op.get("dirty"):
                for e in self.t.getiterator():
                    if e.get("_alignments") is not None:
                        e.get("_alignments").append(e)
            args = dict((k, [str(x) for x in op[k]]) for k in ("ignore", "newline", "blank"))
            if not op["ignore"] and not op["newline"] and not op["blank"]:
                self.t.update()
            else:
                self.t.update(ignoreTags=args["ignore"], newlineTags=args["newline"], blanklineTags=args["blank"])
        except Exception:
            ev["exc"] = drv.exc_name()
            return ev
        el = list(self.t.getiterator())
        pos = dict((id(e), k + 1) for k, e in enumerate(el))

        def num(x):
            return -1 if x is None else drv.i(x)
        ev["text"] = drv.s(self.t.text)
        ev["obs"] = [{"s": num(e.get("_start")), "e": num(e.get("_end")), "ign": bool(e.get("_ignore")), "n": num(e.get("_n")),
                      "al": len(e.get("_alignments")), "text": drv.s(self.t.get_elem_text(e))} for e in el]
        ev["tags"] = [[t, [pos[id(e)] for e in es]] for t, es in sorted(self.t.tagCountTable.items())]
        ev["ids"] = [[t, drv.s(i) if i is not None else "", pos[id(e)]] for t, es in sorted(self.t.tagIdTable.items()) for i, e in sorted(es.items())]
        return ev


drv.main(H)
