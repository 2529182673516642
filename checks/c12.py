from checks.gpcommon import *

REL5 = "equals restates specifies generalizes intersects".split()


def rnd_corpus(rng, n, nodes, rels, dens):
    res = []
    for _ in range(n):
        al = {}
        for s in range(nodes):
            for t in range(nodes):
                if rng.random() < dens:
                    al[s, t] = rng.choice(rels)
        res.append([[s, t, r] for (s, t), r in al.items()])
    return res


def one_to_one(c):
    res = []
    for al in c:
        ss, ts, q = set(), set(), []
        for s, t, r in al:
            if s not in ss and t not in ts:
                ss.add(s)
                ts.add(t)
                q.append([s, t, r])
        res.append(q)
    return res


def perturb(rng, c, nodes, rels):
    res = []
    for al in c:
        d = {}
        for s, t, r in al:
            x = rng.random()
            if x < .2:
                continue
            d[s, t] = rng.choice(rels) if x < .4 else r
        if rng.random() < .6:
            d[rng.randrange(nodes), rng.randrange(nodes)] = rng.choice(rels)
        q = [[s, t, r] for (s, t), r in d.items()]
        rng.shuffle(q)
        res.append(q)
    return res


def run(ck):
    plans = []
    for lab, c in [("one pair of corpora, 3 node pairs", dict(NodePairs="NP3", Rels='{"equals","restates"}', MaxAdds=1, MaxPairs=1)),
                   ("two pairs of corpora, 2 node pairs", dict(NodePairs="NP2", Rels='{"equals","restates"}', MaxAdds=2, MaxPairs=1)),
                   ("corpora of two graph pairs", dict(NodePairs="NP2", Rels='{"equals"}', MaxAdds=1, MaxPairs=2))]:
        cfg = mcfg(["Sane", "Swap", "Partition", "OrderFree"], [], c).replace("NodePairs = ", "NodePairs <- ")
        hists = ck.model("AlignEval", cfg, "AlignEval " + lab, tag="PLAN")
        for h in hists:
            plans.append(h)
    lim = ck.n(2500, 10**9)
    if len(plans) > lim:
        plans = ck.rng.sample(plans, lim)
    out = []
    for k, h in enumerate(plans):
        ops = [dict(o, q=0, name="") for o in h] + [dict(op="eval")] + ([dict(op="write", how=["name", "file", "ratio"][k // 4 % 3], q=0)] if k % 4 == 0 else [])
        out.append(dict(run="t%d" % k, params=dict(rels=["equals", "restates"]), ops=ops))
    for k in range(ck.n(120, 1500)):
        rels = ck.rng.choice([REL5, REL5, REL5[:1], ["r1", "r2", "x"]])
        ops, nodes = [], ck.rng.choice([2, 4, 9])
        dens = ck.rng.choice([0, .1, .3, .8])
        names = ["p.xml", "dir/a.pgc", "n1", "", "", "x" * 30]
        rows = []
        for _ in range(ck.rng.randint(1, 5)):
            n = ck.rng.choice([0, 1, 2, 5])
            T = rnd_corpus(ck.rng, n, nodes, rels, dens)
            P = ck.rng.choice([T, perturb(ck.rng, T, nodes, rels), rnd_corpus(ck.rng, n, nodes, rels, dens), [[] for _ in T]])
            if ck.rng.random() < .2:
                T, P = P, T
            kind = ck.rng.choice(["map", "match"])
            if kind == "match":
                T, P = one_to_one(T), one_to_one(P)
            ops.append(dict(op="add", T=T, P=P, name=ck.rng.choice(names), kind=kind))
            if ck.rng.random() < .4:
                ops.append(dict(op="eval"))
                if ck.rng.random() < .5:
                    ops.append(dict(op="eval"))
        ops.append(dict(op="eval"))
        ops.append(dict(op="write", how=ck.rng.choice(["name", "file", "ratio"])))
        out.append(dict(run="rnd%d" % k, params=dict(rels=rels, default=int(rels == REL5)), ops=ops))
    tr = ck.drive("eval_driver.py", out)
    ck.judge("AlignEvalTrace", tr, tcfg())
