# -*- coding: utf-8 -*-
"""Drive the generic cache (C26).  The clock is a stand-in; an operation that executes too many lines is
reported as one that does not end."""
import sys, threading, types
import time as _rt
import drv


class Clock(object):
    now = 0


# a module in place of time, before the cache is imported
_t = types.ModuleType("time")
for _n in ("sleep", "strftime", "gmtime", "localtime", "ctime", "mktime", "clock", "asctime"):
    setattr(_t, _n, getattr(_rt, _n))
_t.time = lambda: 1000000.0 + Clock.now
sys.modules["time"] = _t
from daeso.thirdparty.GenericCache.GenericCache import GenericCache, CacheNode
from daeso.thirdparty.GenericCache.LRUStock import LRUStock
from daeso.thirdparty.GenericCache.decorators import cached
sys.modules["time"] = _rt

LIMIT = 20000


class Hang(BaseException):
    pass


class Boom(Exception):
    pass


class Node(CacheNode):
    pass


MISS = object()


def val(x):
    if x is MISS:
        return "missing"
    if x is None:
        return "None"
    if isinstance(x, list) and len(x) == 1:
        return "v%s" % drv.i(x[0])
    return drv.s(x)


class Cache(object):
    pause = None

    def __init__(self, params):
        kw = {}
        if params["max"] or params.get("explicit"):
            kw["maxsize"] = params["max"] or None
        if params["exp"] or params.get("explicit"):
            kw["expiry"] = params["exp"] or None
        if params["dfail"] or params.get("explicit"):
            kw["default_fail"] = params["dfail"]
        self.c = GenericCache(**kw)
        self.calls = 0
        self.l = LRUStock()
        Clock.now = 0
        self.alias = {}

    def put(self, v):
        return None if v == 0 else [v]

    def auto(self, op):
        """a call of a function that is cached under the key made of its name and arguments"""
        args, kwargs = tuple(op["args"]), dict((str(k), v) for k, v in op["kw"])

        def make(*a, **kw):
            if a != args or kw != kwargs:
                raise ValueError("arguments")
            self.calls += 1
            if op["boom"]:
                raise Boom()
            return self.put(op["v"])
        make.__name__ = str(op["fn"])
        before = set(self.c.keys())
        try:
            res = val(cached(self.c)(make)(*args, **kwargs))
        except Boom:
            return "Boom"
        for k in self.c.keys():
            if k not in before:
                self.alias[k] = op["k"]
        return res

    def lru(self, op):
        l, o = self.l, op["op"]
        if o == "lru.update":
            l.update(op["k"])
        elif o == "lru.discard":
            l.discard(op["k"])
        elif o == "lru.pop":
            return drv.s(l.pop() or "None")
        elif o == "lru.clear":
            l.clear()
        elif o == "lru.list":
            return ",".join(l.tolist() if op["how"] == "tolist" else list(l))
        elif o == "lru.str":
            return str(l)
        return ""

    def key(self, op):
        k = op["k"]
        kind = op.get("kt", "s")
        if kind == "u":
            return unicode(k)
        if kind == "i" and k.isdigit():
            return int(k)
        return str(k)

    def do(self, op):
        c, o, how = self.c, op["op"], op.get("how", "")
        if o.startswith("lru."):
            return self.lru(op)
        if o == "insert":
            k, v = self.key(op), self.put(op["v"])
            if how == "node":
                c.insert(CacheNode(k, v))
            elif how == "subnode":
                c.insert(Node(k, v))
            elif how == "item":
                c[k] = v
            else:
                c.insert(k, v)
            return ""
        if o == "fetch":
            k = self.key(op)
            try:
                if how == "item":
                    return val(c[k])
                kw = {}
                if op["fail"] != "default":
                    kw["fail"] = op["fail"] == "yes"
                if op["miss"]:
                    kw["onmissing"] = MISS
                return val(c.fetch(k, **kw))
            except KeyError:
                return "KeyError"
        if o == "gen":
            if how == "auto":
                return self.auto(op)

            def make(*args, **kwargs):
                if args != (1, "x") or kwargs != {"y": 2}:
                    raise ValueError("arguments")
                self.calls += 1
                if self.pause:
                    self.pause()
                for b in op["body"]:
                    self.do(b)
                if op["boom"]:
                    raise Boom()
                return self.put(op["v"])
            k = self.key(op)
            try:
                if how == "cached":
                    f = cached(c, lambda *a, **kw: k)(make)
                    return val(f(1, "x", y=2))
                return val(c.fetch_with_generator(k, make, 1, "x", y=2))
            except Boom:
                return "Boom"
        if o == "remove":
            if how == "item":
                del c[self.key(op)]
            else:
                c.remove(self.key(op))
            return ""
        if o == "has":
            k = self.key(op)
            return (how == "in" and k in c or how != "in" and c.has_key(k)) and "yes" or "no"
        if o == "size":
            return str(len(c))
        if o == "reconf":
            c.reconfigure(op["max"] or None, op["exp"] or None)
            return ""
        if o == "clear":
            c.clear()
            return ""
        if o == "collect":
            c.collect()
            return ""
        if o == "tick":
            Clock.now += op["n"]
            return ""
        raise ValueError(o)


class H(object):
    def __init__(self, params):
        self.x = Cache(params)
        self.probe = params["probe"]

    def close(self):
        pass

    def step(self, op):
        ev = dict(op)
        ev.update(exc="", hang=False, res="", size=0, len=0, keys=[], has=[], calls=0)
        lines = [0]

        def trace(frame, event, arg):
            if "GenericCache" not in frame.f_code.co_filename:
                return None
            lines[0] += 1
            if lines[0] > LIMIT:
                raise Hang()
            return trace
        try:
            sys.settrace(trace)
            try:
                ev["res"] = drv.s(self.x.do(op))
                c = self.x.c
                if op["op"].startswith("lru."):
                    c = self.x.l
                    ev["size"], ev["len"], ev["keys"] = drv.i(c.size()), drv.i(len(c)), [drv.s(k) for k in c]
                    return ev
                ev["size"] = drv.i(c.size())
                ev["len"] = drv.i(len(c))
                ev["keys"] = [drv.s(str(self.x.alias.get(k, k))) for k in c.keys()]
                ev["has"] = [{"k": k, "yes": drv.b(k in c)} for k in self.probe]
                ev["calls"] = self.x.calls
            finally:
                sys.settrace(None)
        except Hang:
            ev["hang"] = True
        except Exception:
            ev["exc"] = drv.exc_name()
        return ev


if __name__ == "__main__":
    drv.main(H)
