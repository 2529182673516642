# -*- coding: utf-8 -*-
"""Drive ParallelGraphCorpus as a list (C04, C05)."""
import drv, copy, os
import xml.etree.cElementTree as et
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pgc.graphpair import GraphPair, GraphMapping
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from metas import make_meta, meta_name

NO = 9999
KEYS = {}


class H(object):
    def __init__(self, params):
        self.p = params
        self.cor, self.pairs, self.metas = {}, {}, {}
        self.base = os.path.realpath(os.getcwd())
        self.shared = {}

    # ---- values
    def keyed(self, key):
        """banks and graphs for a key such as 'k1'"""
        b = Pair(GraphBank("/nosuch/%s-s.graphml" % key[:2], "graphml"),
                 GraphBank("/nosuch/%s-t.graphml" % key[:2], "graphml"))
        g = Pair(DaesoGraph(id="s" + key[2:]), DaesoGraph(id="t" + key[2:]))
        return b, g

    def pname(self, x):
        for k, v in self.pairs.items():
            if v is x:
                return k
        return "?unknown pair"

    def mname(self, e):
        if e is None:
            return "none"
        for k, v in self.metas.items():
            if v is e:
                return k
        return "?unknown element"

    def val(self, p):
        if p == "!none": return None
        if p == "!str": return "pair"
        if p == "!list": return []
        if p == "!map": return GraphMapping(*self.keyed("k9"))
        return self.pairs[p]

    def other(self, d, op):
        if d == "!list": return list(self.pairs.values())[:1]
        if d == "!none": return None
        if d == "!pair": return list(self.pairs.values())[0]
        if d == "!iter": return (self.pairs[p] for p in op["q"])
        return self.cor[d]

    # ---- steps
    def step(self, op):
        ev = {"op": op["op"], "exc": "", "rs": "", "ri": 0}
        try:
            r = getattr(self, "do_" + op["op"])(op)
            if isinstance(r, basestring):
                ev["rs"] = r
            elif r is not None:
                ev["ri"] = r
        except Exception:
            ev["exc"] = drv.exc_name()
        if op.get("q_", 1):
            ev["obs"] = [self.observe(c) for c in sorted(self.cor)]
            if self.p.get("deep"):
                ev["pobs"] = [self.pobserve(p) for p in sorted(self.pairs)]
        if op.get("eqs"):
            ev["eqs"] = [{"c": c, "d": d, "eq": bool(self.cor[c] == self.cor[d]), "ne": bool(self.cor[c] != self.cor[d])}
                         for c in sorted(self.cor) for d in sorted(self.cor)]
        return ev

    def observe(self, c):
        x = self.cor[c]
        md = x.get_meta_data()
        ob = {"name": c, "cls": isinstance(x, ParallelGraphCorpus),
              "q": [self.pname(p) for p in x], "len": len(x),
              "items": [self.pname(x[i]) for i in range(len(x))],
              "rev": [self.pname(p) for p in reversed(x)],
              "rels": [drv.s(r) for r in x.get_relations()],
              "meta": self.mname(md),
              "ann": drv.s(x.get_annotator() or ""),
              "tok": "none" if md is None else meta_name(md, "corpus_meta_data")}
        return ob

    def pobserve(self, p):
        x = self.pairs[p]
        b, g = x.get_banks(), x.get_graphs()
        key = os.path.basename(b.source.get_file_path())[:2] + g.source.id[1:]
        if os.path.basename(b.target.get_file_path())[:2] + g.target.id[1:] != key:
            key = "?"
        return {"name": p, "key": key, "meta": meta_name(x.get_meta_data(), "graph_meta_data"),
                "al": sorted([drv.s(n.source), drv.s(n.target), drv.s(r)] for n, r in x.alignments())}

    def do_pair(self, op):
        kw = {}
        if op["meta"] != "m0":
            kw["meta_data"] = make_meta("graph_meta_data", op["meta"])
        self.pairs[op["p"]] = GraphPair(*self.keyed(op["key"]), **kw)

    def do_elem(self, op):
        self.metas[op["m"]] = make_meta("corpus_meta_data", op["tok"])

    def do_new(self, op):
        self.cor[op["c"]] = ParallelGraphCorpus(
            graph_pairs=[self.pairs[p] for p in op["q"]],
            relations=list(op.get("given_rels", op["rels"])),
            meta_data=None if op["meta"] == "none" else self.metas[op["meta"]])

    def do_append(self, op): self.cor[op["c"]].append(self.val(op["p"]))
    def do_insert(self, op): self.cor[op["c"]].insert(op["i"], self.val(op["p"]))
    def do_extend(self, op): self.cor[op["c"]].extend(self.other(op["d"], op))

    def do_pop(self, op):
        c = self.cor[op["c"]]
        return self.pname(c.pop() if op["i"] == NO else c.pop(op["i"]))

    def do_remove(self, op): self.cor[op["c"]].remove(self.val(op["p"]))
    def do_index(self, op): return drv.i(self.cor[op["c"]].index(self.val(op["p"])))
    def do_count(self, op): return drv.i(self.cor[op["c"]].count(self.val(op["p"])))
    def do_contains(self, op): return 1 if self.val(op["p"]) in self.cor[op["c"]] else 0
    def do_reverse(self, op): self.cor[op["c"]].reverse()
    def do_clear(self, op): self.cor[op["c"]].clear()

    def do_sort(self, op):
        c = self.cor[op["c"]]
        if op["how"] == "key":
            c.sort(key=len, reverse=bool(op["rev"]))
        else:
            c.sort(cmp=lambda x, y: cmp(len(x), len(y)), reverse=bool(op["rev"]))

    def do_getitem(self, op): return self.pname(self.cor[op["c"]][op["i"]])
    def do_setitem(self, op): self.cor[op["c"]][op["i"]] = self.val(op["p"])
    def do_delitem(self, op): del self.cor[op["c"]][op["i"]]

    def slices(self, op):
        i = None if op["i"] == NO else op["i"]
        j = None if op["j"] == NO else op["j"]
        k = None if op["k"] == NO else op["k"]
        return i, j, k

    def do_getslice(self, op):
        c = self.cor[op["c"]]
        i, j, k = self.slices(op)
        if op["k"] != NO: r = c[i:j:k]
        elif i is None and j is None: r = c[:]
        elif i is None: r = c[:j]
        elif j is None: r = c[i:]
        else: r = c[i:j]
        self.cor[op["e"]] = r

    def do_delslice(self, op):
        c = self.cor[op["c"]]
        i, j, k = self.slices(op)
        if op["k"] != NO: del c[i:j:k]
        elif i is None and j is None: del c[:]
        elif i is None: del c[:j]
        elif j is None: del c[i:]
        else: del c[i:j]

    def do_setslice(self, op):
        c = self.cor[op["c"]]
        d = self.other(op["d"], op)
        i, j, k = self.slices(op)
        if op["k"] != NO: c[i:j:k] = d
        elif i is None and j is None: c[:] = d
        elif i is None: c[:j] = d
        elif j is None: c[i:] = d
        else: c[i:j] = d

    def do_add(self, op):
        r = self.cor[op["c"]] + self.other(op["d"], op)
        self.cor[op["e"]] = r

    def do_iadd(self, op):
        c = self.cor[op["c"]]
        c += self.other(op["d"], op)
        self.cor[op["c"]] = c

    def do_mul(self, op): self.cor[op["e"]] = self.cor[op["c"]] * op["n"]
    def do_rmul(self, op): self.cor[op["e"]] = op["n"] * self.cor[op["c"]]

    def do_imul(self, op):
        c = self.cor[op["c"]]
        c *= op["n"]
        self.cor[op["c"]] = c

    def do_deepcopy(self, op):
        c, e = self.cor[op["c"]], op["e"]
        new = copy.deepcopy(c)
        for x, y in zip(c, new):
            if self.pname(y).startswith("?"):
                self.pairs[self.pname(x) + "@" + e] = y
        if new.get_meta_data() is not None and self.mname(new.get_meta_data()).startswith("?"):
            self.metas[self.mname(c.get_meta_data()) + "@" + e] = new.get_meta_data()
        self.cor[e] = new

    def do_align(self, op): self.pairs[op["p"]].add_align(Pair(op["s"], op["t"]), op["r"])
    def do_unalign(self, op): self.pairs[op["p"]].del_align(Pair(op["s"], op["t"]))

    def put(self, e, new):
        e.text, e.tail = new.text, new.tail
        e.attrib.clear()
        e.attrib.update(new.attrib)
        del e[:]
        for c in list(new):
            e.append(c)

    def do_pairmeta(self, op):
        new = make_meta("graph_meta_data", op["meta"])
        if op.get("inplace"):
            self.put(self.pairs[op["p"]].get_meta_data(), new)
        else:
            self.pairs[op["p"]].set_meta_data(new)

    def do_editmeta(self, op): self.put(self.metas[op["m"]], make_meta("corpus_meta_data", op["tok"]))
    def do_setmeta(self, op): self.cor[op["c"]].set_meta_data(None if op["m"] == "none" else self.metas[op["m"]])
    def do_annot(self, op):
        c = self.cor[op["c"]]
        if op["app"]:
            c.set_annotator(op["who"])
        else:
            c.set_annotator(op["who"], append=False)
        if c.get_meta_data() is not None and self.mname(c.get_meta_data()).startswith("?"):
            self.metas[op["m"]] = c.get_meta_data()

    def do_setrels(self, op):
        if op.get("how") == "edit":     # the list held by the corpus (never shared with a deep copy)
            self.cor[op["c"]].get_relations()[:] = op["rels"]
        else:
            self.cor[op["c"]].set_relations(list(op.get("given_rels", op["rels"])))

    def do_look(self, op): pass


drv.main(H)
