# -*- coding: utf-8 -*-
"""Drive Dutch number words (C25).  A number is given by its groups of three digits."""
import sys
from files import Out
OUT = Out()
OUT.start()
from daeso.string.number import spell_out_number
TEXT = OUT.stop()
import drv


class H(object):
    def __init__(self, params):
        pass

    def init(self):
        return {"printed": drv.s(TEXT)}

    def close(self):
        pass

    def step(self, op):
        ev = {"op": op["op"], "exc": "", "res": []}
        try:
            for g in op["nums"]:
                n = 0
                for x in g:
                    n = n * 1000 + x
                if op["long"]:
                    n = long(n)
                ev["res"].append(drv.s(spell_out_number(n) if op["pref"] and not op["kw"] else spell_out_number(n, prefer_hundreds=op["pref"])))
        except Exception:
            ev["exc"] = drv.exc_name()
        return ev


drv.main(H)
