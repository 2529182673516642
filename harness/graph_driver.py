# -*- coding: utf-8 -*-
"""Drive ordered graphs and syntactic graphs (C10, C11)."""
import drv
from daeso.graph.ograph import ODiGraph
from daeso.graph.daesograph import DaesoGraph

SPECIAL = {"int0": 0, "int1": 1, "empty": "", "None": None, "zero": "0", "pair": ("a", 1), "uni": u"\xe9", "false": 0.0}


def dec(n):
    return SPECIAL.get(n, n)


def enc(n):
    for k, v in SPECIAL.items():
        if type(v) is type(n) and v == n:
            return k
    return drv.s(n)


def ats(l):
    return dict((str(k), v) for k, v in l)


def encat(d, skip=()):
    return sorted([drv.s(k), drv.s(v)] for k, v in d.items() if k not in skip)


class H(object):
    def __init__(self, params):
        self.p = params
        self.g = {}

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            getattr(self, "do_" + op["op"])(op)
        except Exception:
            ev["exc"] = drv.exc_name()
        if op.get("q_", 1):
            ev["obs"] = [self.observe(x) for x in sorted(self.g)]
        if op.get("q2"):
            ev["qs"] = [self.query(x) for x in sorted(self.g) if isinstance(self.g[x], DaesoGraph)]
        return ev

    def do_new(self, op):
        if op["kind"] == "o":
            self.g[op["g"]] = ODiGraph()
        else:
            self.g[op["g"]] = DaesoGraph(id=op["id"], root=dec(op["root"]))

    def do_addn(self, op):
        g = self.g[op["g"]]
        at = ats(op["at"])
        if isinstance(g, DaesoGraph):
            if op.get("how") == "dict":
                g.add_node(dec(op["n"]), op["label"], op["tk"] and list(op["tk"]), attr_dict=at)
            elif op["tk"]:
                g.add_node(dec(op["n"]), op["label"], list(op["tk"]), **at)
            else:
                g.add_node(dec(op["n"]), label=op["label"], **at)
        elif op.get("how") == "dict":
            g.add_node(dec(op["n"]), at)
        else:
            g.add_node(dec(op["n"]), **at)

    def do_addns(self, op): self.g[op["g"]].add_nodes_from([dec(n) for n in op["ns"]], **ats(op["at"]))

    def do_adde(self, op):
        g = self.g[op["g"]]
        at = ats(op["at"])
        kw = {}
        if isinstance(g, DaesoGraph):
            kw["label"] = op["label"]
        if op.get("how") == "dict":
            g.add_edge(dec(op["u"]), dec(op["v"]), attr_dict=at, **kw)
        else:
            kw.update(at)
            g.add_edge(dec(op["u"]), dec(op["v"]), **kw)

    def do_addes(self, op):
        g = self.g[op["g"]]
        es = [(dec(u), dec(v), ats(a)) if a else (dec(u), dec(v)) for u, v, a in op["es"]]
        kw = {}
        if isinstance(g, DaesoGraph):
            kw["label"] = op["label"]
        at = ats(op["at"])
        if op.get("how") == "dict":
            g.add_edges_from(es, attr_dict=at, **kw)
        else:
            kw.update(at)
            g.add_edges_from(es, **kw)

    def do_badattr(self, op):
        g = self.g[op["g"]]
        if op["what"] == "node": g.add_node("q", "l", [], attr_dict=5) if isinstance(g, DaesoGraph) else g.add_node("q", 5)
        elif op["what"] == "edge": g.add_edge(dec(op["n"]), dec(op["n"]), attr_dict=5)
        else: g.add_edges_from([], attr_dict=5)

    def do_path(self, op): self.g[op["g"]].add_path([dec(n) for n in op["ns"]], **ats(op["at"]))
    def do_rmn(self, op): self.g[op["g"]].remove_node(dec(op["n"]))
    def do_rmns(self, op): self.g[op["g"]].remove_nodes_from([dec(n) for n in op["ns"]])
    def do_rme(self, op): self.g[op["g"]].remove_edge(dec(op["u"]), dec(op["v"]))
    def do_rmes(self, op): self.g[op["g"]].remove_edges_from([(dec(e[0]), dec(e[1])) for e in op["es"]])
    def do_clear(self, op): self.g[op["g"]].clear()
    def do_copy(self, op): self.g[op["h"]] = self.g[op["g"]].copy()
    def do_sub(self, op): self.g[op["h"]] = self.g[op["g"]].subgraph([dec(n) for n in op["ns"]])
    def do_from(self, op): self.g[op["h"]] = ODiGraph(self.g[op["g"]])
    def do_frome(self, op): self.g[op["h"]] = ODiGraph([(dec(u), dec(v), ats(a)) if a else (dec(u), dec(v)) for u, v, a in op["es"]])

    def do_rev(self, op):
        self.g[op["h"]] = self.g[op["g"]].reverse()

    def do_setn(self, op): self.g[op["g"]].node[dec(op["n"])][str(op["k"])] = op["v"]
    def do_sete(self, op): self.g[op["g"]][dec(op["u"])][dec(op["v"])][str(op["k"])] = op["w"]
    def do_setg(self, op): self.g[op["g"]].graph[str(op["k"])] = op["v"]

    def do_settk(self, op):
        g = self.g[op["g"]]
        if op["how"] == "list":
            g.set_node_tokens(dec(op["n"]), list(op["tk"]))
        else:
            g.set_node_token_string(dec(op["n"]), u" ".join(op["tk"]))

    def do_setgt(self, op): self.g[op["g"]].set_graph_token_string(op.get("pad", u"") + op.get("sep", u" ").join(op["tk"]) + op.get("pad", u""))
    def do_look(self, op): pass

    def observe(self, x):
        g = self.g[x]
        d = isinstance(g, DaesoGraph)
        sk = ("tokens",) if d else ()
        ob = {"name": x, "nodes": [enc(n) for n in g.nodes()], "iter": [enc(n) for n in g],
              "na": [{"n": enc(n), "at": encat(a, sk)} for n, a in g.nodes(data=True)],
              "nn": g.number_of_nodes(), "len": len(g), "ne": g.number_of_edges(),
              "edges": [[enc(u), enc(v), encat(a)] for u, v, a in g.edges(data=True)],
              "inedges": [[enc(u), enc(v)] for u, v in g.in_edges()],
              "succ": [{"n": enc(n), "l": [enc(m) for m in g.successors(n)]} for n in g.nodes()],
              "pred": [{"n": enc(n), "l": [enc(m) for m in g.predecessors(n)]} for n in g.nodes()],
              "ga": encat(g.graph)}
        if d:
            ob.update(id=drv.s(g.id), root=enc(g.root), hastoks=g.tokens is not None,
                      toks=[drv.s(t) for t in g.tokens or []],
                      tk=[{"n": enc(n), "t": [drv.s(t) for t in g.get_node_tokens(n) or []]} for n in g.nodes()])
        return ob

    def query(self, x):
        g = self.g[x]
        F = [(p, e) for p in (True, False) for e in (True, False)]
        ys = []
        for n in list(g.nodes()) + ([None] if g.root is not None and g.has_node(g.root) else []):
            for p, e in F:
                if n is None:
                    l = g.terminal_yield(with_punct=p, with_empty=e)
                elif p and e:
                    l = g.terminal_yield(n)
                else:
                    l = g.terminal_yield(n, with_punct=p, with_empty=e)
                ys.append({"n": enc(n), "p": p, "e": e, "l": [enc(m) for m in l]})
        return {"name": x,
                "terms": [{"p": p, "e": e, "l": [enc(m) for m in g.terminals(with_punct=p, with_empty=e)]} for p, e in F],
                "nonterms": [enc(m) for m in g.non_terminals()],
                "yields": ys,
                "cls": [{"n": enc(n), "p": p, "e": e, "punct": bool(g.node_is_punct(n)), "empty": bool(g.node_is_empty(n)),
                         "nont": bool(g.node_is_non_terminal(n)), "term": bool(g.node_is_terminal(n, p, e))}
                        for n in g.nodes() for p, e in F],
                "strs": [{"n": enc(n), "s": drv.s(g.get_node_token_string(n)), "t": [drv.s(t) for t in g.get_node_tokens(n)]} for n in g.nodes()],
                "gstr": drv.s(g.get_graph_token_string())}


drv.main(H)
