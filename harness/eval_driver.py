# -*- coding: utf-8 -*-
"""Drive daeso.pgc.evaluate.AlignEval (C12)."""
import drv, os, StringIO, codecs
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphMapping, GraphMatching
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.evaluate import AlignEval
from evalreport import table, overall, parse, ratio


class H(object):
    def __init__(self, params):
        self.p = params
        self.rels = [str(r) for r in params["rels"]]
        self.e = AlignEval() if params.get("default") else AlignEval(relations=self.rels)
        self.ev = False
        self.n = 0

    def corpus(self, c, kind):
        res = ParallelGraphCorpus(relations=self.rels) if kind == "match" else []
        for k, al in enumerate(c):
            cls = GraphMatching if kind == "match" else GraphMapping
            x = cls(Pair(GraphBank("a.graphml", "graphml"), GraphBank("b.graphml", "graphml")),
                    Pair(DaesoGraph(id="g%d" % k), DaesoGraph(id="h%d" % k)))
            for s, t, r in al:
                x.add_align(Pair(s, t), str(r))
            res.append(x)
        return res

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            getattr(self, "do_" + op["op"])(op, ev)
        except Exception:
            ev["exc"] = drv.exc_name()
            return ev
        if op.get("q", 1):
            ks = sorted(self.e.keys())
            ev["keys"] = ks
            ev["names"] = list(self.e.names)
            ev["tabs"] = [table(k, self.e[k], self.ev) for k in ks]
            if self.ev:
                ev["overall"] = overall(self.e)
        return ev

    def do_add(self, op, ev):
        kind = op.get("kind", "map")
        T = self.corpus(op["T"], kind)
        P = self.corpus(op["P"], kind)
        if op.get("name"):
            self.e.add(T, P, str(op["name"]))
        else:
            self.e.add(T, P)
        self.ev = False
        ev["same"] = self.back(T) == self.want(op["T"]) and self.back(P) == self.want(op["P"])

    def back(self, c):
        return [sorted([n.source, n.target, drv.s(r)] for n, r in x.alignments()) for x in c]

    def want(self, c):
        return [sorted([s, t, drv.s(r)] for s, t, r in al) for al in c]

    def do_eval(self, op, ev):
        self.e.run_eval()
        self.ev = True

    def do_write(self, op, ev):
        if op["how"] == "name":
            self.n += 1
            fn = "report%d.txt" % self.n
            self.e.write(fn)
            text = open(fn).read()
            os.remove(fn)
        elif op["how"] == "ratio":
            f = StringIO.StringIO()
            ev["order"] = sorted(self.e.keys())
            for k in ev["order"]:
                self.e[k].write(self.e.names, out=f, percent=False, heading="" if k not in self.rels else k.upper())
            self.e.write_alignment_overall(out=f, percent=False)
            ev["ratio"] = ratio(parse(f.getvalue(), self.rels))
            return
        else:
            f = StringIO.StringIO()
            self.e.write(f)
            text = f.getvalue()
        ev["report"] = parse(text, self.rels)


drv.main(H)
