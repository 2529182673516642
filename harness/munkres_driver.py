# -*- coding: utf-8 -*-
"""Drive the assignment algorithm (C29).  A matrix of integers is given as it is, as floats in units of 1/4 or
1/10, or scaled to large numbers; all of these have the same optimal assignments."""
import sys, copy, threading, re
import drv
from files import Out
from daeso.thirdparty import munkres

LIMIT = 400000
UNIT = {"int": lambda x: x, "float": float, "quarter": lambda x: x * 0.25, "tenth": lambda x: x / 10.0, "long": lambda x: x * 10 ** 20,
        "huge": lambda x: x * 1e200, "big": lambda x: x * 100000000, "tiny": lambda x: x * 2.0 ** -60, "max": lambda x: sys.maxint - x}


class Hang(BaseException):
    pass


class H(object):
    def __init__(self, params):
        self.m = munkres.Munkres()

    def close(self):
        pass

    def step(self, op):
        ev = dict(op=op["op"], exc="", res=[], shown=[], inv=[])
        if op["op"] == "compute":
            for x in op["ms"]:
                ev["res"].append(self.one(x["m"], x["unit"], x["fresh"]))
            return ev
        try:
            if op["op"] == "invert":
                f = op["how"] == "method" and munkres.Munkres.make_cost_matrix or munkres.make_cost_matrix
                ev["inv"] = [[drv.i(v) for v in row] for row in f(op["m"], lambda v: op["top"] - v)]
            else:
                out = Out()
                out.start()
                try:
                    if op["msg"]:
                        munkres.print_matrix(op["m"], op["msg"])
                    else:
                        munkres.print_matrix(op["m"])
                finally:
                    text = out.stop()
                lines = text.splitlines()
                if op["msg"]:
                    if lines[0] != op["msg"]:
                        raise ValueError("message")
                    lines = lines[1:]
                ev["shown"] = [[int(v) for v in l.strip("[]").split(",")] for l in lines]
        except Exception:
            ev["exc"] = drv.exc_name()
        return ev

    def one(self, m, unit, fresh):
        r = dict(m=m, q=[], hang=False, exc="", same=True)
        if unit == "max":
            # a profit turned into a cost
            r["m"] = [[-v for v in row] for row in m]
        a = [[UNIT[unit](v) for v in row] for row in m]
        b = copy.deepcopy(a)
        n = [0]

        def trace(frame, event, arg):
            if "munkres" not in frame.f_code.co_filename:
                return None
            n[0] += 1
            if n[0] > LIMIT:
                raise Hang()
            return trace
        if fresh:
            self.m = munkres.Munkres()
        try:
            # large matrices take many lines; only the others are watched
            if len(m) < 6 or unit in ("long", "huge"):
                sys.settrace(trace)
            try:
                q = self.m.compute(a)
            finally:
                sys.settrace(None)
            r["q"] = [[drv.i(x) + 1 for x in p] for p in q]
            r["same"] = a == b
        except Hang:
            r["hang"] = True
        except Exception:
            r["exc"] = drv.exc_name()
        return r


drv.main(H)
