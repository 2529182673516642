# -*- coding: utf-8 -*-
"""Drive pgc_stats, gb_stats and their scripts (C14)."""
import sys
from files import bank_file, corpus_file, Out, run_script
OUT = Out()
sys.stdout = OUT
import drv, os, tempfile, shutil, re
import daeso
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL
from daeso.pgc.pgcstats import pgc_stats, graph_pair_stats, PgcStatsTable
from daeso.gb.gbstats import gb_stats, graph_stats, GbStatsTable
from evalreport import sc
BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(daeso.__file__)))), "bin")
RELS = "equals restates specifies generalizes intersects".split()
LONG = dict(e="with_empty_nodes", f="with_failed_parses", p="with_punc", r="with_unaligned_roots", u="with_unaligned_graphs")

# only the (unavailable) Alpino format knows failed parses: stand-in for it
DaesoGraph.is_failed_parse = lambda self: self.id in FAILED
FAILED = set()


def table(t):
    cols = t.values()
    n = len(cols[0])
    res = {"rows": [], "overall": {}}
    for k in range(n):
        v = {}
        for c in cols[1:]:
            v[c.label] = drv.i(c[k]) if c.type == "count" else sc(c[k], 100)
        res["rows"].append({"name": drv.s(cols[0][k]), "v": v})
    if [len(c) for c in cols] != [n] * len(cols):
        res["rows"] = []
    for c in cols[1:]:
        res["overall"][c.label] = -1 if c.overall is None else drv.i(c.overall) if c.type == "count" else sc(c.overall, 100)
    return res


def parse(text):
    """the tables printed by the scripts: columns are right-aligned under their labels"""
    res, state, cur = [], 0, None
    for l in text.split("\n"):
        if state == 0:
            if re.match(r"(CORPUS|BANK)\s", l):
                labs = [(m.group(), m.end()) for m in re.finditer(r"\S+", l)][1:]
                cur = {"rows": [], "overall": {}}
                res.append(cur)
                state = 1
        elif state == 1:
            state = 2
        elif state == 2 and not l.startswith("----"):
            parts = l.split()
            v = {}
            for (lab, _), x in zip(labs, parts[1:]):
                v[lab] = int(x) if lab[0] == "C" else sc(float(x), 100)
            cur["rows"].append({"name": parts[0], "v": v})
        elif state == 2:
            state = 3
        elif state == 3:
            for lab, e in labs:
                x = l[:e][-8:].strip()
                cur["overall"][lab] = -1 if x == "" else int(x) if lab[0] == "C" else sc(float(x), 100)
            state = 0
    return res


class H(object):
    def __init__(self, params):
        self.d = tempfile.mkdtemp(dir=os.getcwd())
        self.home = os.getcwd()
        self.n = 0

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.d)

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        self.n += 1
        d = os.path.join(self.d, "w%d" % self.n)
        os.mkdir(d)
        FAILED.clear()
        for b, gs in op["banks"].items():
            out = []
            for g in gs:
                if g["failed"]:
                    FAILED.add(g["id"])
                out.append(dict(id=g["id"], tokens=" ".join(g["tokens"]), root=g["root"],
                                nodes=[[n["id"], "x", " ".join(n["tokens"]) or "EMPTY"] for n in g["nodes"]], edges=[]))
            bank_file(os.path.join(d, b + ".graphml"), out)
        fns = []
        for c in op["corpora"]:
            fn = os.path.join(d, c["name"])
            ids = sorted(set([p["sb"] for p in c["pairs"]] + [p["tb"] for p in c["pairs"]]))
            corpus_file(fn, [["B" + i, i + ".graphml"] for i in ids], RELS,
                        [dict(fb="B" + p["sb"], tb="B" + p["tb"], sg=p["sg"], tg=p["tg"], al=p["al"]) for p in c["pairs"]])
            fns.append(fn)
        try:
            getattr(self, "do_" + op["how"])(op, ev, d, fns)
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["tb"] = traceback.format_exc()[-500:]
        finally:
            OUT.on = False
            os.chdir(self.home)
            shutil.rmtree(d)
        return ev

    def kw(self, op, letters="efpru"):
        return dict((LONG[l], True) for l in op["opts"] if l in letters)

    def do_pgc(self, op, ev, d, fns):
        p, g = pgc_stats(fns, **self.kw(op))
        ev["pgc"], ev["gb"] = table(p), table(g)

    def do_mem(self, op, ev, d, fns):
        """with nodes without tokens, which no GraphML file can provide"""
        pt = PgcStatsTable(size=len(fns))
        gt = GbStatsTable()
        row = 0
        for i, fn in enumerate(fns):
            c = ParallelGraphCorpus(inf=fn, graph_loading=LOAD_ALL)
            banks = list(c._graphbanks())
            for b in banks:
                for g in b:
                    for n in g:
                        if g.get_node_token_string(n) == "EMPTY":
                            g.set_node_tokens(n, [])
            kw = self.kw(op, "efpr")
            graph_pair_stats(os.path.basename(fn), c, pt, i, **kw)
            gt.grow(len(banks))
            for b in banks:
                graph_stats(b, gt, row, **self.kw(op))
                row += 1
        pt.summarize()
        gt.summarize()
        ev["pgc"], ev["gb"] = table(pt), table(gt)

    def do_gb(self, op, ev, d, fns):
        g = gb_stats([os.path.join(d, b + ".graphml") for b in op["order"]], "graphml", **self.kw(op, "efp"))
        ev["gbonly"] = table(g)

    def flags(self, op, letters):
        x = [l for l in op["opts"] if l in letters]
        if len(x) == len(letters):
            return ["-a"]
        return ["-" + "".join(x)] if x else []

    def script(self, name, args, ev):
        OUT.start()
        try:
            rc = run_script(os.path.join(BIN, name), args)
        finally:
            text = OUT.stop()
        if rc:
            ev["exc"] = "exit %s" % rc
        return parse(text)

    def do_script(self, op, ev, d, fns):
        os.chdir(d)
        t = self.script("pgc_stats.py", self.flags(op, "efpru") + (["-l"] if op.get("leg") else []) + ["*.pgc"], ev)
        for x, k in zip(t, ("pgc", "gb")):
            ev[k] = x
        # glob gives the files in any order
        ev["gotorder"] = [r["name"] for r in ev["pgc"]["rows"]]
        ev["corpora"] = [c for n in ev["gotorder"] for c in op["corpora"] if c["name"] == n]

    def do_gbscript(self, op, ev, d, fns):
        os.chdir(d)
        t = self.script("gb_stats.py", self.flags(op, "efp") + ["-F", "graphml", "*.graphml"], ev)
        ev["gbonly"] = t[0]
        ev["order"] = [b for r in t[0]["rows"] for b in op["banks"] if b + ".graphml" == r["name"]]


drv.main(H)
