# -*- coding: utf-8 -*-
"""Drive multiset counters and ordered dictionaries (C28)."""
import sys, copy, pickle
import drv
from itertools import islice
from daeso.thirdparty.counter import Counter
from daeso.thirdparty.odict import OrderedDict

OBJ = {"a": "a", "b": "b", "c": "c", "d": u"d", "\xe9": u"\xe9", "i1": 1, "i2": -2, "t": (1, "x"), "n": None, "fs": frozenset([1]), "e": "", "f": 0.5}
OBJ.update(("k%d" % j, "k%d" % j) for j in range(200))
ALT = {"a": u"a", "d": "d", "i1": 1.0, "i2": -2L}
NAME = dict((v, k) for k, v in OBJ.items())


def obj(k, op):
    k = k.encode("latin-1") if isinstance(k, unicode) else k
    return ALT.get(k, OBJ[k]) if op.get("alt") else OBJ[k]


def name(x):
    try:
        return drv.s(NAME[x])
    except (KeyError, TypeError):
        return "?"


COPY = {"copy": lambda x: x.copy(), "new": None, "ccopy": copy.copy, "deep": copy.deepcopy,
        "pickle": lambda x: pickle.loads(pickle.dumps(x)), "pickle2": lambda x: pickle.loads(pickle.dumps(x, 2))}


class H(object):
    def __init__(self, params):
        self.bag, self.od = {}, {}

    def close(self):
        pass

    def source(self, op):
        x = op["src"]
        t = x["t"]
        if t == "iter":
            q = [obj(k, op) for k in x["q"]]
            return op.get("gen") and iter(q) or q
        if t == "map":
            return dict((obj(e["k"], op), e["n"]) for e in x["q"])
        if t == "bag":
            return self.bag[x["b"]]
        if t == "od":
            return self.od[x["d"]]
        if t == "pairs":
            return [(obj(e["k"], op), e["v"]) for e in x["q"]]

    def call(self, f, op):
        kw = dict((str(e["k"]), e.get("n", e.get("v"))) for e in op["kw"])
        if op["src"]["t"] == "none":
            return f(None, **kw) if op.get("gen") and f is not OrderedDict else f(**kw)
        return f(self.source(op), **kw)

    def do(self, op):
        o = op["op"]
        b = self.bag.get(op.get("b"))
        d = self.od.get(op.get("d"))
        k = obj(op["k"], op) if "k" in op else None
        if o == "bnew":
            self.bag[op["b"]] = self.call(Counter, op)
        elif o == "bupdate":
            self.call(b.update, op)
        elif o == "bset":
            b[k] = op["n"]
        elif o == "binc":
            b[k] += op["n"]
        elif o == "bdel":
            del b[k]
        elif o == "bget":
            return "int", drv.i(b[k])
        elif o == "bpop":
            return "int", drv.i(b.pop(k))
        elif o == "bclear":
            b.clear()
        elif o == "bcopy":
            f = COPY[op["how"]] or Counter
            self.bag[op["b"]] = f(self.bag[op["x"]])
        elif o == "bbin":
            x, y = self.bag[op["x"]], self.bag[op["y"]]
            self.bag[op["b"]] = {"+": lambda: x + y, "-": lambda: x - y, "|": lambda: x | y, "&": lambda: x & y}[op["f"]]()
        elif o == "bbad":
            {"+": lambda: b + {}, "-": lambda: b - {"a": 1}, "|": lambda: b | {}, "&": lambda: b & {}}[op["f"]]()
        elif o == "bfromkeys":
            Counter.fromkeys("ab")
        elif o == "beq":
            x, y = self.bag[op["x"]], self.bag[op["y"]]
            r = x == y
            if r == (x != y):
                return "bool", "both"
            return "bool", drv.b(r)
        elif o == "bmost":
            q = b.most_common() if op["n"] < 0 else b.most_common(op["n"])
            self.list = [{"k": name(e), "n": drv.i(n)} for e, n in q]
        elif o == "belements":
            self.list = [name(e) for e in islice(b.elements(), 1000)]
        elif o == "onew":
            self.od[op["d"]] = self.call(OrderedDict, op)
        elif o == "oupdate":
            self.call(d.update, op)
        elif o == "oset":
            d[k] = op["v"]
        elif o == "odel":
            del d[k]
        elif o == "oget":
            return "int", drv.i(d.get(k, 77) if op["dflt"] else d[k])
        elif o == "opop":
            return "int", drv.i(d.pop(k, 77) if op["dflt"] else d.pop(k))
        elif o == "opopitem":
            x, v = d.popitem()
            return "item", {"k": name(x), "v": drv.i(v)}
        elif o == "osetdefault":
            return "int", drv.i(d.setdefault(k, op["v"]))
        elif o == "oclear":
            d.clear()
        elif o == "ocopy":
            f = COPY[op["how"]] or OrderedDict
            self.od[op["d"]] = f(self.od[op["x"]])
        elif o == "ofromkeys":
            self.od[op["d"]] = OrderedDict.fromkeys([obj(x, op) for x in op["q"]], 5)
        elif o == "oeq":
            x, y = self.od[op["x"]], self.od[op["y"]]
            r = x == y
            if r == (x != y):
                return "bool", "both"
            return "bool", drv.b(r)
        return "ok", 0

    def step(self, op):
        self.list = []
        try:
            t, v = self.do(op)
        except Exception:
            t, v = drv.exc_name(), 0
        items = lambda q: [{"k": name(k), "v": drv.i(v)} for k, v in q]
        ev = dict(op=op["op"], res={"t": t, "v": v}, list=self.list, bags=[], ods=[])
        for n, c in sorted(self.bag.items()):
            ev["bags"].append({"name": n, "c": [{"k": name(k), "n": drv.i(v)} for k, v in c.items()], "kind": type(c) is Counter})
        for n, d in sorted(self.od.items()):
            ev["ods"].append(dict(
                name=n, len=drv.i(len(d)), keys=[name(k) for k in d.keys()], iter=[name(k) for k in d], iterkeys=[name(k) for k in d.iterkeys()],
                values=[drv.i(v) for v in d.values()], itervalues=[drv.i(v) for v in d.itervalues()],
                items=items(d.items()), iteritems=items(d.iteritems()), rev=[name(k) for k in reversed(d)],
                view=[name(k) for k in d.viewkeys()], viewv=[drv.i(v) for v in d.viewvalues()], viewi=items(d.viewitems()),
                has=sorted(drv.s(k) for k, x in OBJ.items() if x in d and d.has_key(x)), kind=type(d) is OrderedDict,
                plain=items(dict(d).items())))
        return ev


drv.main(H)
