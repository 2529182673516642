from checks.gpcommon import *
from checks.c12 import one_to_one

REL5 = "equals restates specifies generalizes intersects".split()


def run(ck):
    c = dict(NodePairs="NPs", Rels='{"equals", "restates"}', NAnn=3, NonTerms='{"a"}')
    hists = ck.model("Agreement", mcfg(["Symmetric", "Complete", "PerfectWithSelf", "MeansAgree", "WordsOnly"], [], c).replace("NodePairs = ", "NodePairs <- "),
                     "Agreement of 2 and 3 annotators on 2 node pairs", tag="PLAN")
    ops = [dict(h[0], names=[], nodes=["a", "b"], nt=[[["a"], []] if k % 3 == 0 else [["a"], ["a"]] if k % 3 == 1 else [[], ["b"]]], how="cross")
           for k, h in enumerate(hists)]
    for k, o in enumerate(ops):
        o["words"] = k % 4 // 2
    lim = ck.n(350, 10**9)
    if len(ops) > lim:
        ops = ck.rng.sample(ops, lim)
    plans = [dict(run="t%d" % (k // 5), ops=ops[k:k + 5]) for k in range(0, len(ops), 5)]
    nodes = ["n%d" % k for k in range(6)]
    for k in range(ck.n(60, 800)):
        ops = []
        for _ in range(3):
            nann = ck.rng.choice([2, 2, 3, 4, 5])
            npair = ck.rng.choice([1, 2, 4])
            rels = ck.rng.choice([REL5, REL5[:2]])
            base = [[[s, t, ck.rng.choice(rels)] for s in nodes for t in nodes if ck.rng.random() < .15] for _ in range(npair)]
            C = []
            for a in range(nann):
                c = []
                for al in base:
                    q = []
                    for s, t, r in al:
                        x = ck.rng.random()
                        if x < .75:
                            q.append([s, t, r if x < .55 else ck.rng.choice(rels)])
                    if ck.rng.random() < .5:
                        q.append([ck.rng.choice(nodes), ck.rng.choice(nodes), ck.rng.choice(rels)])
                    ck.rng.shuffle(q)
                    c.append(q)
                C.append(one_to_one(c))
            names = ck.rng.choice([[], ck.rng.sample(["EM", "XX", "jk", "a b", "A10", "A2", "zz"], nann)])
            ops.append(dict(op="agree", C=C, words=ck.rng.randint(0, 1), names=names, nodes=nodes, full=1,
                            nt=[[[n for n in nodes if ck.rng.random() < .4] for _ in "st"] for _ in range(npair)],
                            how=ck.rng.choice(["cross", "run", "parts", "script"])))
        plans.append(dict(run="rnd%d" % k, ops=ops))
    tr = ck.drive("agree_driver.py", plans)
    ck.judge("AgreementTrace", tr, tcfg())
