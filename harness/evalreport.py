# -*- coding: utf-8 -*-
"""Projection of AlignEval objects and of their written reports."""
import drv

UNIT = 10000


def sc(x, u=UNIT):
    if isinstance(x, bool) or not isinstance(x, (int, long, float)):
        return drv.BIG
    if x != x or abs(x) > 200000:
        return drv.BIG
    v = x * u
    return int(v + 0.5) if v >= 0 else -int(-v + 0.5)


MS = ("prec", "rec", "f")
CS = ("true", "pred", "common")


def table(rel, t, evaluated):
    o = {"rel": rel, "evaluated": evaluated, "rows": []}
    for r in t:
        o["rows"].append({"counts": dict((c, drv.i(r.counts[c])) for c in CS),
                          "meas": dict((m, sc(r.measures[m])) for m in MS if m in r.measures)})
    if evaluated:
        o["counts"] = dict((c, {"sum": drv.i(t.count_stats[c]["sum"]), "mean": sc(t.count_stats[c]["mean"], 100),
                                "var": sc(t.count_stats[c]["var"], 100), "sd": sc(t.count_stats[c]["sd"], 100)}) for c in CS)
        o["meas"] = dict((m, dict((k, dict((s, sc(t.measure_stats[m][k][s])) for s in ("mean", "var", "sd")))
                                  for k in ("macro", "micro"))) for m in MS)
    return o


def overall(e):
    return {"counts": dict((c, drv.i(e.count_stats[c]["sum"])) for c in CS),
            "meas": dict((m, dict((k, sc(e.measure_stats[m][k]["mean"])) for k in ("macro", "micro"))) for m in MS)}


def num(t):
    try:
        return sc(float(t), 100)
    except ValueError:
        return None


def parse(text, rels):
    """sequence of tables: heading, columns and rows (label, three figures in 1/100)"""
    up = dict((r.upper(), r) for r in rels)
    res, head, cur = [], "", None
    lines = text.split("\n")
    for i, l in enumerate(lines):
        l = l.rstrip()
        if not l.strip() or set(l) <= set("=-"):
            continue
        parts = l.rsplit(None, 3)
        if len(parts) == 4 and parts[1].endswith(":") and parts[3].endswith(":"):
            cur = {"h": head, "cols": parts, "rows": []}
            res.append(cur)
            head = ""
        elif len(parts) == 4 and None not in [num(x) for x in parts[1:]]:
            if cur is None:
                cur = {"h": "?", "cols": [], "rows": []}
                res.append(cur)
            cur["rows"].append([parts[0]] + [num(x) for x in parts[1:]])
        else:
            h = l.strip()
            head = up.get(h, h)
            if head == "Alignment per relation":
                head = ""
    return res


def ratio(tabs):
    """scores written as fractions, in the unit of percentages"""
    for t in tabs:
        if "Prec:" in t["cols"]:
            t["rows"] = [r[:1] + [100 * x for x in r[1:]] for r in t["rows"]]
    return tabs
