"""Plans for reading, writing, moving and purging corpora (C06, C07, C08)."""
from checks.gpcommon import tcfg

METAS = ["m%d" % i for i in range(17)]
B1, B2, B3, HARD = ["t", "gb", "b1"], ["t", "gb", "b2"], ["u", "b1"], ["t", "pg", "b1h"]


def pair(sb, tb, sg, tg, al=(("n1", "n2", "equals"),), meta="m0", k="graph"):
    return dict(sb=sb, tb=tb, sg=sg, tg=tg, sk=k, tk=k, st="mem:" + sg if k == "graph" else "",
                tt="mem:" + tg if k == "graph" else "", al=[list(a) for a in al], meta=meta)


def model(ck, depth):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANT ModesAgree PathLaws\n"
           "PROPERTY RoundTrip Moves PurgeKeeps PurgeUnique\nACTION_CONSTRAINT Emit\n"
           "CONSTANTS\n Tops = {}\n MaxDepth = %d\n Scenario = \"x\"\n" % depth)
    return ck.model("Store", cfg, "corpora and files, depth %d" % depth, tag="PLAN", workers=8)


def setup():
    return [dict(op="bank", path=B1, ino="x1", gs=["g1", "g2"]), dict(op="bank", path=B2, ino="x2", gs=["g1", "g2"]),
            dict(op="bank", path=B3, ino="x3", gs=["g1", "g2"]), dict(op="link", path=HARD, **{"from": B1}),
            dict(op="mk", c="c", cor=dict(rels=["equals"], meta="none",
                                          pairs=[pair(B1, B2, "g1", "g2"), pair(HARD, B1, "g2", "g2")])),
            dict(op="mk", c="d", cor=dict(rels=["equals"], meta="m3", pairs=[pair(B3, B2, "g1", "g1")]))]


def from_model(ck, hists, want, lim, r):
    """plans from the histories whose last operation is of one of the kinds in `want`"""
    hs = [h for h in hists if h[-1]["op"] in want]
    ck.cov["model_behaviours_" + "_".join(want)] = len(hs)
    if len(hs) > lim:
        hs = r.sample(hs, lim)
    plans = []
    for k, h in enumerate(hs):
        ops = [dict(o, q_=0) for o in setup()]
        for o in h:
            o = dict(o)
            if o["op"] == "write":
                o.update(how=r.choice(["name", "name", "file"]), pprint=r.randint(0, 1))
                o["dir"] = o["path"][:-1]
                if r.random() < 0.3:
                    o.update(how="buffer", cwd=o["path"][:-1])
                elif r.random() < 0.5:
                    o["cwd"] = r.choice([["t"], ["u"], ["cw", "d"]])
            elif o["op"] == "read":
                o.update(how=r.choice(["name", "file", "ctor"]), dir=o["path"][:-1])
                if r.random() < 0.2:
                    o.update(how="buffer", cwd=o["path"][:-1])
                elif r.random() < 0.5:
                    o["cwd"] = r.choice([["t"], ["u"], ["cw", "d"]])
                    if o["cwd"][0] not in (["cw"] + [o["path"][0]]):
                        del o["cwd"]
            ops.append(o)
        for o in ops[:-1]:
            o["q_"] = int(o["op"] == "purge")
        ops[-1]["eqs"] = 1
        # a working directory inside a tree that is moved would interfere
        mv = [o["from"][0] for o in h if o["op"] == "move"]
        for o in ops:
            if o.get("cwd") and o["cwd"][0] in mv:
                o["cwd"] = ["cw", "d"]
                if o["how"] == "buffer":
                    o["how"] = "name"
        plans.append(dict(run="mod%d" % k, params={}, ops=ops))
    return plans


class World(object):
    """a small shadow of the state, used only to generate sensible operations"""
    def __init__(self, r, dirs=None):
        self.r = r
        self.ops = []
        self.dirs = dirs or [["t"], ["t", "a"], ["t", "a", "b"], ["u"], ["u", "a"], []]
        if r.random() < .25:
            self.dirs = [[{"t": u"t\u00e9", "a": u"Jos\u00e9 & co", "u": "u"}.get(x, x) for x in d] for d in self.dirs]
        self.banks = {}
        self.docs = {}
        self.cors = {}
        self.n, self.toks = 0, []
        self.links = []

    def add(self, **o):
        self.ops.append(o)
        return o

    def bank(self, path=None, gs=None, ino=None):
        self.n += 1
        tok = None
        if self.toks and not gs and not ino and self.r.random() < .3:      # the same content as another graphbank
            tok, gs = self.r.choice(self.toks)
        gs = gs or ["g%d" % i for i in range(1, self.r.randint(2, 6))]
        path = path or self.r.choice(self.dirs) + ["%s%d.xml" % (self.r.choice(["b", "bank with space ", "B", u"b\u00e0nk"]), self.n)]
        self.add(op="bank", path=path, ino=ino or "x%d" % self.n, gs=gs, **({"tok": tok} if tok else {}))
        self.toks.append((tok or self.ops[-1]["ino"], gs))
        self.banks[tuple(path)] = gs

    def link(self):
        self.n += 1
        f = list(self.r.choice(sorted(self.banks)))
        p = self.r.choice(self.dirs) + ["h%d.xml" % self.n]
        self.add(op="link", path=p, **{"from": f})
        self.banks[tuple(p)] = self.banks[tuple(f)]

    def sym(self):
        """a symbolic link to one of the directories"""
        self.n += 1
        to = self.r.choice(self.dirs[:-1])
        path = self.r.choice([[], ["u"], ["cw"]]) + ["l%d" % self.n]
        self.add(op="symlink", path=path, to=to, mkdir=1)
        self.links.append((path, to))

    def via(self, path):
        for a, to in self.r.sample(self.links, len(self.links)):
            if path[:len(to)] == to and self.r.random() < 0.7:
                return a + path[len(to):]

    def al(self, k=None):
        r = self.r
        out, ss, ts = [], set(), set()
        for _ in range(r.randint(0, 4) if k is None else k):
            s, t = r.choice(["n1", "n2", "n3", "\u00e9", "0"]), r.choice(["n1", "n2", "n3", "n'\"", "<"])
            if s not in ss and t not in ts:
                ss.add(s); ts.add(t)
                out.append([s, t, r.choice(["equals", "restates", "\u00fcber", "Equals"])])
        return out

    def pair(self, kind="graph"):
        r = self.r
        a, b = r.choice(sorted(self.banks)), r.choice(sorted(self.banks))
        return pair(list(a), list(b), r.choice(self.banks[a]), r.choice(self.banks[b]), al=self.al(),
                    meta=r.choice(["m0", "m0", r.choice(METAS)]), k=kind)

    def rels(self):
        g = self.r.choice([["equals"], ["restates", "equals"], [], ["\u00fcber", "a b", "equals"], ["Equals", "equals", "EQUALS"]])
        g = list(g)
        self.r.shuffle(g)
        return sorted(g), g

    def mk(self, c, np=None, rels=None):
        r = self.r
        s, g = rels or self.rels()
        cor = dict(rels=s, meta=r.choice(["none", "none", r.choice(METAS)]),
                   pairs=[self.pair(r.choice(["graph", "graph", "stub"])) for _ in range(r.randint(0, 6) if np is None else np)])
        o = self.add(op="mk", c=c, cor=cor, rels=g, share=r.randint(0, 1))
        if self.links:
            o["vias"] = [[x, v] for x, v in ((list(b), self.via(list(b))) for b in sorted(self.banks)) if v]
        self.cors[c] = len(cor["pairs"])

    def write(self, c, path=None):
        r = self.r
        self.n += 1
        path = path or r.choice(self.dirs) + ["o%d.pgc" % self.n]
        o = self.add(op="write", c=c, path=path, how=r.choice(["name", "file", "buffer"]), pprint=r.randint(0, 1),
                     abs=r.random() < 0.35, dir=path[:-1])
        if o["how"] == "buffer":
            o["cwd"] = r.choice([o["dir"], r.choice(self.dirs)]) if not o["abs"] else o["dir"]
            o["dir"] = o["cwd"]
            if o["dir"] != path[:-1] and not o["abs"]:
                # only sensible when the text ends up in the directory it was written for
                o["cwd"] = o["dir"] = path[:-1]
        else:
            if r.random() < 0.4:
                o["cwd"] = r.choice(self.dirs)
            v = self.via(path)
            if v:
                o["via"] = v
        self.docs[tuple(path)] = self.cors[c]
        return path

    def read(self, c, path, mode=None, relax=None, how=None):
        r = self.r
        o = self.add(op="read", c=c, path=path, mode=mode or r.choice(["all", "sparse", "none"]),
                     relax=(r.random() < 0.25) if relax is None else relax,
                     how=how or r.choice(["name", "file", "buffer", "ctor"]), dir=path[:-1])
        if o["how"] == "buffer":
            o["cwd"] = path[:-1]
        else:
            if r.random() < 0.4:
                o["cwd"] = r.choice(self.dirs)
            v = self.via(path)
            if v:
                o["via"] = v
        return o
