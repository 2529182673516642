# -*- coding: utf-8 -*-
"""Drive statistics tables and corpus segment statistics (C15)."""
import sys
from files import bank_file, corpus_file, Out
OUT = Out()
sys.stdout = OUT
import drv, os, tempfile, shutil, re, StringIO
from daeso.stats.table import StatsTable
from daeso.pgc.pgcstats import PgcStatsTable
from daeso.gb.gbstats import GbStatsTable
from daeso.stats.corpus import corpus_seg_stats
from evalreport import sc


class T(StatsTable):
    columns_def = """
    NAME  string  name of the thing
    C1    count   first count
    C2    count   second count
    P     percent percentage
    A     average average of something
    """


class N(StatsTable):
    columns_def = """
    C1    count   first count
    A     average average of something
    C2    count   second count
    """


CLS = dict(T=T, N=N, pgc=PgcStatsTable, gb=GbStatsTable)


def cell(c, v):
    return drv.s(v) if c.type == "string" else drv.i(v) if c.type == "count" else drv.BIG if not isinstance(v, (int, float)) else max(drv.BIG, min(-drv.BIG, int(round(v * 100))))


def over(c):
    return -1 if c.overall is None else cell(c, c.overall)


def project(t):
    cols = t.values()
    n = max([len(c) for c in cols] + [0])
    rows = []
    for k in range(n):
        rows.append(dict((c.label, cell(c, c[k]) if k < len(c) else drv.BIG) for c in cols))
    return {"cols": [[c.label, c.type] for c in cols], "rows": rows, "ov": dict((c.label, over(c)) for c in cols),
            "empty": bool(t.is_empty())}


def parse(text, cols):
    """written table: numeric columns are right-aligned, the string column comes first"""
    lines = text.split("\n")
    seps = [k for k, l in enumerate(lines) if l.startswith("----")][:2]
    head = [(m.group(), m.end()) for m in re.finditer(r"\S+", lines[seps[0] - 1])]
    labs = [h[0] for h in head]
    first = cols[0][1] == "string"

    def val(c, x):
        try:
            v = int(x) if c[1] == "count" else int(round(float(x) * 100))
        except ValueError:
            return drv.BIG
        return max(drv.BIG, min(-drv.BIG, v))

    def row(l):
        r = {}
        prev = None
        for k, c in enumerate(cols):
            e = head[k][1]
            if k == 0 and first:
                continue
            lo = head[k - 1][1] if k > (1 if first else 0) else 0
            if k == 1 and first:
                lo = max(0, e - 60)
                m = re.search(r"(^|\s)(\S*)$", l[:e])
                r[c[0]] = m.group(2)
                r[cols[0][0]] = l[:m.start()].rstrip() if m.group(2) else l[:e].rstrip()
                continue
            r[c[0]] = l[lo:e].strip()
        return r
    rows = []
    for l in lines[seps[0] + 1:seps[1]]:
        r = row(l)
        rows.append(dict((c[0], r[c[0]] if c[1] == "string" else val(c, r[c[0]])) for c in cols))
    r = row(lines[seps[1] + 1])
    ov = dict((c[0], -1 if r[c[0]] == "" else val(c, r[c[0]])) for c in cols)
    return {"cols": labs, "rows": rows, "ov": ov, "rest": lines[seps[1] + 2:]}


class H(object):
    def __init__(self, params):
        self.d = tempfile.mkdtemp(dir=os.getcwd())
        self.home = os.getcwd()
        self.t = {}

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.d)

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            getattr(self, "do_" + op["op"])(op, ev)
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["tb"] = traceback.format_exc()[-500:]
        finally:
            OUT.on = False
            os.chdir(self.home)
        if op["op"] != "segment" and not ev["exc"]:
            ev["obs"] = []
            for o in sorted(self.t):
                if op.get("q", 1) and (o == op["o"] or op.get("all")):
                    x = project(self.t[o])
                    x["o"] = o
                    ev["obs"].append(x)
        return ev

    def do_new(self, op, ev):
        n = op["n"]
        self.t[op["o"]] = CLS[op["cls"]](size=n) if n else CLS[op["cls"]]()

    def do_grow(self, op, ev):
        self.t[op["o"]].grow(op["n"])

    def conv(self, t, op):
        c = t[op["c"]]
        v = op["v"]
        return str(v) if c.type == "string" else v if c.type == "count" else v / 100.0

    def do_set(self, op, ev):
        t = self.t[op["o"]]
        t[op["c"]][op["r"] - 1] = self.conv(t, op)

    def do_inc(self, op, ev):
        t = self.t[op["o"]]
        t[op["c"]][op["r"] - 1] += self.conv(t, op)

    def do_sum(self, op, ev):
        self.t[op["o"]].summarize()

    def fn(self, o):
        return os.path.join(self.d, o + ".txt")

    def do_write(self, op, ev):
        t = self.t[op["o"]]
        f = open(self.fn(op["o"]), "w")
        if "leg" in op:
            t.write(legenda=bool(op["leg"]), out=f)
        else:
            t.write(out=f)
        f.close()
        cols = [[c.label, c.type] for c in t.values()]
        x = parse(open(self.fn(op["o"])).read(), cols)
        rest = [l.split(None, 2) for l in x.pop("rest") if l.strip()]
        want = [[str(k + 1), c.label] + ([c.descr] if c.descr else []) for k, c in enumerate(t.values())]
        x["legenda"] = rest == ([] if "leg" in op and not op["leg"] else want)
        ev["text"] = x

    def do_read(self, op, ev):
        if op.get("how") == "file":
            f = open(self.fn(op["p"]))
            self.t[op["o"]].read(f)
            f.close()
        else:
            self.t[op["o"]].read(self.fn(op["p"]))

    def do_segment(self, op, ev):
        seg = os.path.join(self.d, op["name"])
        work = os.path.join(self.d, "work")
        os.mkdir(work)
        self.corpora(seg, op, "want")
        self.report(op, seg, work, op.get("targets"))
        if "again" in op:
            # corpora are added everywhere, but only the targets are processed again
            self.corpora(seg, op, "extra")
            self.report(op, seg, work, op["again"])
        ev["cwd"] = os.path.realpath(os.getcwd()) == os.path.realpath(work)

        def load(parts, k):
            fn = os.path.join(work, ".".join(["stats", op["name"]] + parts).replace("/", ".") + "." + k)
            cls = dict(pgc=PgcStatsTable, gb=GbStatsTable)[k]
            if not os.path.exists(fn):
                return {"rows": [], "ov": {}}
            t = parse(open(fn).read(), [[c.label, c.type] for c in cls().values()])
            t.pop("rest")
            return t
        ev["seg"] = [dict(name=a["name"], pgc=load([a["name"]], "pgc"), gb=load([a["name"]], "gb"),
                          subs=[dict(name=s["name"], want=s["want"], extra=s["extra"], pgc=load([a["name"], s["name"]], "pgc"),
                                     gb=load([a["name"], s["name"]], "gb")) for s in a["subs"]]) for a in op["annots"]]
        ev["all"] = dict(pgc=load([], "pgc"), gb=load([], "gb"))
        shutil.rmtree(work)
        shutil.rmtree(seg, True)

    def corpora(self, seg, op, which):
        for a in op["annots"]:
            for s in a["subs"]:
                for c in s[which]:
                    p = os.path.join(seg, "pgc", a["name"], *(s["name"].split("/") + [c[0]]))
                    bank_file(p + ".graphml", [dict(id="g", tokens="a b .", root="n1", nodes=[["n1", "x", "a"], ["n2", "y", "b ."]], edges=[])])
                    corpus_file(p, [["b", c[0] + ".graphml"]], ["equals"],
                                [dict(fb="b", tb="b", sg="g", tg="g", al=[["n2", "n2", "equals"]] if k < c[2] else [["n1", "n1", "equals"]])
                                 for k in range(c[1])])

    def report(self, op, seg, work, targets):
        os.chdir(work)
        OUT.start()
        se = sys.stderr
        sys.stderr = OUT
        try:
            corpus_seg_stats(targets, seg + op.get("slash", ""), annot_dirs=[a["name"] for a in op["annots"]],
                             subseg_dirs=[s["name"] for s in op["annots"][0]["subs"]])
        finally:
            sys.stderr = se
            OUT.stop()


drv.main(H)
