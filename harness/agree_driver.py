# -*- coding: utf-8 -*-
"""Drive daeso.pgc.agreement (C13)."""
import sys
from files import bank_file, corpus_file, Out, run_script
OUT = Out()
sys.stdout = OUT
import drv, os, StringIO, pickle, tempfile, shutil, re
from daeso.pgc import agreement
from evalreport import table, overall, parse, sc, MS
BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.dirname(agreement.__file__)))), "bin")
RELS = "equals restates specifies generalizes intersects".split()


def fig(t, unit):
    try:
        return sc(float(t), unit)
    except ValueError:
        return drv.BIG


class H(object):
    def __init__(self, params):
        self.p = params
        self.d = tempfile.mkdtemp(dir=os.getcwd())
        self.n = 0

    def close(self):
        shutil.rmtree(self.d)

    def files(self, op):
        """one graph per side and graph pair: kinds given by the non-terminals"""
        self.n += 1
        d = os.path.join(self.d, "w%d" % self.n)
        os.mkdir(d)
        for side, i in (("s", 0), ("t", 1)):
            gs = []
            for k, nt in enumerate(op["nt"]):
                nodes = [[n, "x", n] for n in op["nodes"]]
                # a non-terminal has a child; the extra node "zz" is one that is never aligned
                edges = [[n, "zz"] for n in nt[i]]
                gs.append(dict(id="%s%d" % (side, k), tokens="t", nodes=nodes + [["zz", "x", "zz"]], edges=edges))
            bank_file(os.path.join(d, side + ".graphml"), gs)
        fns = []
        for a, c in enumerate(op["C"]):
            fn = os.path.join(d, "c%d.pgc" % a)
            corpus_file(fn, [["b1", "s.graphml"], ["b2", "t.graphml"]], RELS,
                        [dict(fb="b1", tb="b2", sg="s%d" % k, tg="t%d" % k, al=al) for k, al in enumerate(c)])
            fns.append(fn)
        return fns

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        fns = self.files(op)
        before = [open(f, "rb").read() for f in fns]
        how = op.get("how", "cross")
        names = [str(n) for n in op["names"]]
        try:
            if how == "cross":
                e = agreement.cross_evaluate(fns, names or None, words_only=bool(op["words"]))
                tabs = agreement.tableize(e)
                self.obs(ev, e, tabs, op)
                f = StringIO.StringIO()
                for r in sorted(tabs):
                    f.write("Agreement on relation %s\n" % r)
                    for m in sorted(tabs[r]):
                        tabs[r][m].write(out=f, header=m.upper())
                self.tables(ev, f.getvalue(), "fractions", 10000)
            elif how == "run":
                pf = os.path.join(self.d, "p.pickle")
                OUT.start()
                try:
                    e, tabs = agreement.run_eval(fns, names or None, pickle_fn=pf, words_only=bool(op["words"]))
                finally:
                    text = OUT.stop()
                self.obs(ev, e, tabs, op)
                self.text(ev, text)
                e2, t2 = pickle.load(open(pf, "rb"))
                ev["pickled"] = t2 == tabs and self.flat(e2) == self.flat(e)
            elif how == "parts":
                pf, pf2 = os.path.join(self.d, "p1.pickle"), os.path.join(self.d, "p2.pickle")
                e = agreement.cross_evaluate(fns, names or None, pickle_fn=pf, words_only=bool(op["words"]))
                tabs = agreement.tableize(e, pickle_fn=pf2)
                self.obs(ev, e, tabs, op)
                ev["pickled"] = pickle.load(open(pf2, "rb")) == tabs and self.flat(pickle.load(open(pf, "rb"))) == self.flat(e)
            elif how == "script":
                av = []
                for n in names:
                    av += ["-a", n]
                if op["words"]:
                    av.append("-w")
                OUT.start()
                try:
                    rc = run_script(os.path.join(BIN, "pgc_agreement.py"), av + fns)
                finally:
                    text = OUT.stop()
                if rc:
                    ev["exc"] = "exit %s" % rc
                self.text(ev, text)
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["tb"] = traceback.format_exc()[-600:]
            return ev
        ev["filesame"] = before == [open(f, "rb").read() for f in fns]
        return ev

    def flat(self, e):
        return [list(e.names), overall(e)] + [table(k, e[k], True) for k in sorted(e.keys())]

    def obs(self, ev, e, tabs, op):
        ev["rownames"] = [list(n) for n in e.names]
        if op.get("full"):
            ev["tabs"] = [table(k, e[k], True) for k in sorted(e.keys())]
            ev["overall"] = overall(e)
        ev["am"] = []
        for r in sorted(tabs):
            for m in sorted(tabs[r]):
                t = tabs[r][m]
                L = t.labels
                ev["am"].append({"rel": r, "m": m, "labels": list(L),
                                 "cells": [[a, b, sc(t[a][b])] for a in L for b in L if b in t[a]],
                                 "mean": [[a, sc(t["mean"][a])] for a in L], "sd": [[a, sc(t["SD"][a])] for a in L],
                                 "om": sc(t["mean"]["overall"]), "osd": sc(t["SD"]["overall"])})

    def text(self, ev, text):
        k = text.find("=" * 80 + "\nAgreement on relation")
        ev["report"] = parse(text[:k], RELS)
        self.tables(ev, text[k:], "printed", 100)

    def tables(self, ev, text, key, unit):
        num = lambda c: fig(c, unit)
        res, rel, m, cur = [], None, None, None
        for l in text.split("\n"):
            if l.startswith("Agreement on relation"):
                rel = l.split()[-1]
            elif l.strip() in ("PREC", "REC", "F"):
                m = l.strip().lower()
            elif l.strip() and not set(l.strip()) <= set("=-"):
                cells = [l[i:i + 12].strip() for i in range(0, len(l), 12)]
                if cells[0] == "":
                    lab = [c[:-1] for c in cells[1:]]
                    cur = {"rel": rel, "m": m, "labels": lab[:-1], "cells": [], "mean": [], "sd": [], "om": drv.BIG, "osd": drv.BIG}
                    res.append(cur)
                elif cells[0] == "mean:":
                    cur["mean"] = [[a, num(c)] for a, c in zip(lab, cells[1:])][:-1]
                    cur["om"] = num(cells[-1])
                elif cells[0] == "SD:":
                    cur["sd"] = [[a, num(c)] for a, c in zip(lab, cells[1:])][:-1]
                    cur["osd"] = num(cells[-1])
                else:
                    cur["cells"] += [[cells[0][:-1], a, num(c)] for a, c in zip(lab, cells[1:]) if c]
        ev[key] = res


drv.main(H)
