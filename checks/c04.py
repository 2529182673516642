from checks.gpcommon import tcfg

NO = 9999


def mcfg(family, pairs, maxn, hi, emit=True):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANT Laws\nPROPERTY Others Derived Refused\n"
            "CONSTANTS\n PairNames = {%s}\n MaxN = %d\n Hi = %d\n MaxDepth = 1\n Family = \"%s\"\n"
            % (", ".join('"%s"' % p for p in pairs), maxn, hi, family)
            + ("ACTION_CONSTRAINT Emit\n" if emit else ""))


def setup(c, d, pairs=("p", "q"), rels=("equals",), keys=None):
    ops = [dict(op="pair", c="", p=p, key=(keys or {}).get(p, "k1"), meta="m0") for p in pairs]
    ops += [dict(op="new", c="c", q=c, rels=list(rels), meta="none"),
            dict(op="new", c="d", q=d, rels=list(rels), meta="none"),
            dict(op="new", c="x", q=d, rels=["equals", "restates"], meta="none")]
    return ops


def run(ck):
    plans = []
    for fam, maxn, hi in [("ops", 3, 5), ("get", 4, 5), ("set", 3, 4)]:
        hs = ck.model("Corpus", mcfg(fam, ["p", "q"], maxn if fam == "ops" or not ck.quick else min(maxn, 3), hi),
                      "Corpus, " + fam, tag="PLAN", workers=8)
        ck.cov["transitions_" + fam] = len(hs)
        lim = ck.n(2500, 25000)
        if len(hs) > lim:
            hs = ck.rng.sample(hs, lim)
        for k, h in enumerate(hs):
            # half of the time the two pairs are equal (but different) objects
            keys = {"p": "k1", "q": "k1" if k % 2 else "k2"}
            ops = setup(h["c"], h["d"], keys=keys)
            for o in ops:
                o["q_"] = 0
            plans.append(dict(run="%s%d" % (fam, k), params={}, ops=ops + h["ops"]))
    r = ck.rng
    RELS = [["equals"], ["equals", "intersects", "restates"], []]
    for k in range(ck.n(200, 2500)):
        np = r.randint(2, 6)
        pairs = ["p%d" % i for i in range(np)]
        keys = {p: "k%d%s" % (r.randint(1, 2), r.choice(["", "7"])) for p in pairs}
        ops = [dict(op="pair", c="", p=p, key=keys[p], meta=r.choice(["m0", "m0", "m3"])) for p in pairs]
        ops += [dict(op="align", c="", p=r.choice(pairs), s="s%d" % r.randint(1, 3), t="t%d" % r.randint(1, 3), r="equals")
                for _ in range(r.randint(0, 5))]
        ops += [dict(op="elem", c="", m="e1", tok="m1"), dict(op="elem", c="", m="e2", tok="m3")]
        base = r.choice(RELS[:2])
        cors = []

        def rels():
            x = list(base if r.random() < 0.85 else r.choice(RELS))
            g = list(x)
            r.shuffle(g)
            return dict(rels=sorted(x), given_rels=g)
        for c in "cde":
            ops.append(dict(op="new", c=c, q=[r.choice(pairs) for _ in range(r.randint(0, 4))],
                            meta=r.choice(["none", "e1", "e2"]), **rels()))
            cors.append(c)
        ix = lambda: r.randint(-7, 7)
        ixn = lambda: r.choice([NO, ix(), ix()])
        size = {c: 4 for c in cors}
        for _ in range(r.randint(10, 45)):
            c = r.choice(cors)
            d = r.choice(cors)
            e = r.choice("fgh")
            o = r.choice("append insert pop remove index count contains reverse sort getitem setitem delitem getslice "
                         "delslice setslice add iadd mul rmul imul extend clear setrels setmeta look getslice setslice".split())
            if o == "clear" and r.random() < 0.7:
                o = "append"
            if o in ("imul", "mul", "rmul", "iadd", "add", "extend") and r.random() < 0.5:
                o = "delslice"
            op = dict(op=o, c=c)
            if o in ("append", "insert", "setitem"):
                op["p"] = r.choice(pairs + ["!none", "!map", "!str", "!list"]) if r.random() < 0.2 else r.choice(pairs)
            elif o in ("remove", "index", "count", "contains"):
                op["p"] = r.choice(pairs)
            if o in ("insert", "getitem", "setitem", "delitem"):
                op["i"] = ix()
            if o == "pop":
                op["i"] = ixn()
            if o in ("getslice", "delslice", "setslice"):
                op.update(i=ixn(), j=ixn(), k=r.choice([NO, NO, NO, 1, 2, -1, -2, 3, 0]))
            if o in ("getslice", "add", "mul", "rmul"):
                op["e"] = e
            if o in ("setslice", "add", "iadd"):
                op["d"] = d if r.random() < 0.85 else r.choice(["!list", "!none", "!pair"])
            if o == "extend":
                op["d"] = r.choice([d, "!iter"])
                op["q"] = [r.choice(pairs) for _ in range(r.randint(0, 3))] if op["d"] == "!iter" else []
            if o in ("mul", "rmul", "imul"):
                op["n"] = r.randint(-1, 2)
            if o == "sort":
                op.update(rev=r.randint(0, 1), how=r.choice(["key", "cmp"]))
            if o == "setrels":
                op.update(rels())
            if o == "setmeta":
                op["m"] = r.choice(["none", "e1", "e2"])
            if o in ("getslice", "add", "mul", "rmul") and not (o == "add" and op["d"][0] == "!") :
                pass
            ops.append(op)
            # keep corpora small
            ops.append(dict(op="delslice", c=c, i=12, j=NO, k=NO))
        # corpora e/f/g/h may not exist when an operation that would make them is refused: only use c, d, e afterwards
        plans.append(dict(run="rnd%d" % k, params={}, ops=ops))
    tr = ck.drive("corpus_driver.py", plans, procs=6)
    ck.judge("CorpusTrace", tr, tcfg())
