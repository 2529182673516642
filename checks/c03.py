from checks.gpcommon import *
from checks.c01 import INV, PROPS

METAS = ["m%d" % i for i in range(17)]


def run(ck):
    # exhaustive: two objects, copies, alignments over 2x2 nodes, two meta-data values
    S = ["s:a", "s:b"]
    plans = []
    for kind in ("match", "map"):
        c = dict(Kinds='{"%s"}' % kind, SNodes='{"s:a", "s:b"}', TNodes='{"s:a", "s:b"}' if kind == "match" else '{"s:a"}',
                 Rels='{"equals"}' if kind == "match" else '{"equals", "restates"}',
                 Objs='{"x", "y"}', Metas='{"m0", "m3"}', Banks='{"b1"}', MaxLen=ck.n(9, 30))
        hists = ck.model("GraphPairs", mcfg(INV, PROPS + ["CopiesEqual"], c), "GraphPairs copies, " + kind, tag="PLAN")
        lim = ck.n(3000, 10**9)
        if len(hists) > lim:
            hists = ck.rng.sample(hists, lim)
        for k, h in enumerate(hists):
            ops = only_last(h)
            ops[-1]["eqs"] = 1
            plans.append(dict(run="t%s%d" % (kind, k), params=dict(S=S, T=S, rels=["equals"], all=1), ops=ops))
    # pairwise meta-data and bank/graph differences
    sbos = ["b1", "b1~2", "b1~hard", "b1~sym", "b1~dot", "b1~sparse", "b2", "n1", "n1~2", "n2"]

    def new(o, kind, sbo="b1", tbo="b2", sg="g1", tg="g2", meta="m0", gv=0):
        return dict(op="new", o=o, kind=kind, sb=sbo.split("~")[0], tb=tbo.split("~")[0], sbo=sbo, tbo=tbo,
                    sg=sg, tg=tg, meta=meta, gv=gv)
    base = dict(S=S, T=S, rels=["equals"], all=1)
    names = "xyzuvwpqr"
    for kind in ("match", "map"):
        for grp in range(0, len(METAS), 4):
            for grp2 in range(0, len(METAS), 4):
                ops = [new(names[i], kind, meta=m) for i, m in enumerate(METAS[grp:grp + 4] + METAS[grp2:grp2 + 4])]
                ops[-1]["eqs"] = 1
                plans.append(dict(run="meta-%s-%d-%d" % (kind, grp, grp2), params=base, ops=only_last(ops)))
        ops = [new(names[i % 9] + str(i), kind, sbo=b, tbo=t, gv=i % 2) for i, (b, t) in enumerate(
            [(b, "b2") for b in sbos] + [("b2", b) for b in sbos[:6]] + [("n1", "n1~2"), ("n2", "b1")])]
        ops[-1]["eqs"] = 1
        plans.append(dict(run="banks-" + kind, params=base, ops=only_last(ops)))
        ops = [new("o%d" % i, kind, sg=a, tg=b) for i, (a, b) in enumerate(
            [("g1", "g2"), ("g1", "g2"), ("g2", "g1"), ("g1", "g1"), ("g2", "g2"), ("g1", "g3"), ("g3", "g2")])]
        ops[-1]["eqs"] = 1
        plans.append(dict(run="graphs-" + kind, params=base, ops=only_last(ops)))
    # random histories with several objects
    r = ck.rng
    for k in range(ck.n(200, 2500)):
        kind = r.choice(["match", "map"])
        rels = r.choice([["equals", "restates", "specifies"], ["equals", "Equals", "EQUALS"], ["equals", "equals ", "equal"],
                         [u"\u00e9quivaut", u"e\u0301quivaut", u"\u00c9quivaut"]])
        P = r.choice([["s:1", "s:2", "s:3"], ["s:a", "i:0", "s:"], ["s:n%d" % i for i in range(5)]])
        ops = [new("o1", kind, r.choice(sbos), r.choice(sbos), r.choice(["g1", "g2"]), "g2", r.choice(METAS))]
        objs = ["o1"]
        al = []
        for j in range(r.randint(6, 30)):
            x = r.random()
            o = r.choice(objs)
            if x < 0.15 and len(objs) < 5:
                p = "o%d" % (len(objs) + 1)
                objs.append(p)
                ops.append(dict(op="copy", o=o, p=p))
            elif x < 0.22 and len(objs) < 5:
                p = "o%d" % (len(objs) + 1)
                objs.append(p)
                f = dict(ops[0])
                f.update(o=p)
                if r.random() < 0.5:
                    f.update(r.choice([dict(sg="g3"), dict(gv=1), dict(meta=r.choice(METAS)), dict(tg="g1"), dict(kind=r.choice(["match", "map"]))]))
                ops.append(f)
            elif x < 0.4:
                ops.append(dict(op="meta", o=o, meta=r.choice(METAS), inplace=r.randint(0, 1)))
            elif x < 0.8 or not al:
                s, t = r.choice(al) if al and r.random() < 0.4 else (r.choice(P), r.choice(P))
                al.append((s, t))
                ops.append(dict(op="add", o=o, s=s, t=t, r=r.choice(rels)))
            else:
                s, t = r.choice(al)
                ops.append(dict(op="del", o=o, s=s, t=t))
            if r.random() < 0.5:
                ops[-1]["eqs"] = 1
        plans.append(dict(run="rnd%d" % k, params=dict(S=P[:3], T=P[:3], rels=rels[:1], all=1), ops=ops))
    tr = ck.drive("gp_driver.py", plans)
    ck.judge("GraphPairsTrace", tr, tcfg())
