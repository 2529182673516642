# -*- coding: utf-8 -*-
"""Drive GraphMapping/GraphMatching objects (C01, C02, C03)."""
import drv, copy, os, tempfile
import xml.etree.cElementTree as et
from daeso.pair import Pair
from daeso.pgc.graphpair import GraphMapping, GraphMatching
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.gb.graphstub import GraphStub
from daeso.graph.daesograph import DaesoGraph
from metas import make_meta, meta_name


def node(x):
    k, v = x.split(":", 1)
    return int(v) if k == "i" else (str(v) if k == "s" else unicode(v))


def nname(n):
    if n is None:
        return "None"
    if isinstance(n, (int, long)):
        return "i:%d" % n
    if isinstance(n, str):
        return "s:" + n
    return u"u:" + n


class H(object):
    def __init__(self, params):
        self.p = params
        self.objs = {}
        self.banks = {}
        self.graphs = {}
        self.S = params["S"]
        self.T = params["T"]
        self.rels = params["rels"]
        self.base = os.path.realpath(os.getcwd())

    def bank(self, name):
        # bank names: "<file>" or "<file>~<n>": distinct objects for one file
        # "b*~hard", "b*~sym": reached through a hard / symbolic link; n*: the file does not exist
        if name not in self.banks:
            f = (name + "~").split("~")[0]
            path = os.path.join(self.base, f + ".graphml")
            if f[0] == "b" and not os.path.exists(path):
                open(path, "w").close()
            if name.endswith("~hard"):
                p2 = os.path.join(self.base, f + "-hard.graphml")
                if not os.path.exists(p2):
                    os.link(path, p2)
                path = p2
            elif name.endswith("~sym"):
                p2 = os.path.join(self.base, f + "-sym.graphml")
                if not os.path.exists(p2):
                    os.symlink(path, p2)
                path = p2
            elif name.endswith("~dot"):
                path = os.path.join(self.base, "..", os.path.basename(self.base), ".", f + ".graphml")
            cls = SparseGraphBank if name.endswith("~sparse") else GraphBank
            self.banks[name] = cls(path, "graphml")
        return self.banks[name]

    def graph(self, gid, side):
        return self.graph_v(gid, side, 0)

    def graph_v(self, gid, side, v):
        k = (gid, side, v)
        if k not in self.graphs:
            root = self.p.get("roots", {}).get(side)
            self.graphs[k] = DaesoGraph(id=gid, root=None if root is None else node(root))
        return self.graphs[k]

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            getattr(self, "do_" + op["op"])(op)
        except Exception:
            ev["exc"] = drv.exc_name()
        if op.get("q", 1):
            ev["obs"] = [self.observe(o) for o in sorted(self.objs)
                         if self.p.get("all") or o == op.get("o") or o == op.get("p")]
        if op.get("eqs"):
            ev["eqs"] = []
            for o in sorted(self.objs):
                for p in sorted(self.objs):
                    x, y = self.objs[o], self.objs[p]
                    a, b = x.get_banks(), y.get_banks()
                    ev["eqs"].append({"o": o, "p": p, "eq": bool(x == y), "ne": bool(x != y),
                                      "banks": [bool(a == b), bool(a != b), bool(a.source == b.target), bool(a.source != b.target)]})
        return ev

    def do_new(self, op):
        cls = GraphMatching if op["kind"] == "match" else GraphMapping
        v = op.get("gv", 0)
        kw = {}
        if op["meta"] != "m0":
            kw["meta_data"] = make_meta("graph_meta_data", op["meta"])
        self.objs[op["o"]] = cls(
            Pair(self.bank(op.get("sbo", op["sb"])), self.bank(op.get("tbo", op["tb"]))),
            Pair(self.graph_v(op["sg"], "s", v), self.graph_v(op["tg"], "t", v)), **kw)

    def do_add(self, op):
        self.objs[op["o"]].add_align(Pair(node(op["s"]), node(op["t"])), op["r"])

    def do_del(self, op):
        self.objs[op["o"]].del_align(Pair(node(op["s"]), node(op["t"])))

    def do_copy(self, op):
        self.objs[op["p"]] = copy.deepcopy(self.objs[op["o"]])

    def do_meta(self, op):
        new = make_meta("graph_meta_data", op["meta"])
        x = self.objs[op["o"]]
        if op.get("inplace"):
            # edit the existing element object in place
            e = x.get_meta_data()
            e.text = new.text
            e.tail = new.tail
            e.attrib.clear()
            e.attrib.update(new.attrib)
            del e[:]
            for c in list(new):
                e.append(c)
        else:
            x.set_meta_data(new)

    def do_look(self, op):
        pass

    def triples(self, q):
        return sorted([[nname(n.source), nname(n.target), drv.s(r)] for n, r in q])

    def observe(self, o):
        x = self.objs[o]
        ob = {"o": o}
        ob["al"] = self.triples(x.alignments())
        ob["len"] = drv.i(len(x))
        b = x.get_banks()
        g = x.get_graphs()
        ob["sbo"] = self.bname(b.source)
        ob["tbo"] = self.bname(b.target)
        ob["sb"] = ob["sbo"].split("~")[0]
        ob["tb"] = ob["tbo"].split("~")[0]
        if x.get_source_bank() is not b.source or x.get_target_bank() is not b.target:
            ob["sb"] = "?getters"
        ob["sg"], gv1 = self.gname(g.source)
        ob["tg"], gv2 = self.gname(g.target)
        ob["gv"] = gv1 if gv1 == gv2 else -1
        if x.get_source_graph() is not g.source or x.get_target_graph() is not g.target:
            ob["sg"] = "?getters"
        ob["meta"] = meta_name(x.get_meta_data(), "graph_meta_data")
        ob["get"] = [[s, t, drv.s(x.get_align(Pair(node(s), node(t))))] for s in self.S for t in self.T]
        match = isinstance(x, GraphMatching)
        ob["tgt"] = [[s, nname(x.get_aligned_target_node(node(s)))] for s in self.S] if match else []
        ob["src"] = [[t, nname(x.get_aligned_source_node(node(t)))] for t in self.T] if match else []
        fs = [[r] for r in self.rels] + ([self.rels[:2]] if len(self.rels) > 1 else []) + [["nosuch"]]
        kinds = [list, tuple, set, frozenset, lambda q: dict((r, 1) for r in q)]
        ob["filt"] = [{"rels": f, "al": self.triples((x.alignments_iter if i % 2 else x.alignments)(
            relations=kinds[(len(ob["al"]) + i) % 5](f)))} for i, f in enumerate(fs)]
        ob["roots"] = bool(x.roots_aligned())
        r = self.p.get("roots", {})
        ob["sroot"] = r.get("s") or "None"
        ob["troot"] = r.get("t") or "None"
        ob["nodes"] = sorted(nname(n) for n in x.nodes())
        return ob

    def bname(self, bank):
        for k, v in self.banks.items():
            if v is bank:
                return k
        return "?not the original graphbank"

    def gname(self, g):
        for k, v in self.graphs.items():
            if v is g:
                return k[0], k[2]
        return "?not the original graph", -1


drv.main(H)
