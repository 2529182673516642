from checks.gpcommon import tcfg
from checks.c10 import mcfg, plans_from, NODES

TOKS = [[], ["een"], ["de", "kat"], [","], [",", "."], ["\u00e9\u00e9n"], [".", "x"], ["("], ["$", "5"], ["a.", "b"]]

# of nodes only: the token string of a graph is split at any white space
NTOKS = TOKS + [["-1"], [".net", ","], ["a\u00a0b", "c"], ["a", "", "b"], ["\t", "x"]]


def run(ck):
    r = ck.rng
    hs = ck.model("OGraph", mcfg("d", ["a", "int0"], ck.n(4, 5)), "syntactic graphs, 2 nodes", tag="PLAN", workers=8)
    hs3 = ck.model("OGraph", mcfg("d", ["a", "b", "empty"], 3 if ck.quick else 4), "syntactic graphs, 3 nodes", tag="PLAN", workers=8)
    hs = hs + hs3
    ck.cov["model_behaviours"] = len(hs)
    lim = ck.n(2500, 30000)
    if len(hs) > lim:
        hs = r.sample(hs, lim)
    plans = plans_from(hs, "mod")
    for p in plans:
        p["ops"][-1]["q2"] = 1
    for k in range(ck.n(500, 6000)):
        nodes = list(NODES) + ["n%d" % i for i in range(r.choice([0, 0, 8]))]
        r.shuffle(nodes)
        nodes = nodes[:r.randint(1, len(nodes))]
        order = list(nodes)
        r.shuffle(order)
        root = order[0]
        ops = [dict(op="new", g="g", kind="d", id="i1", root=root if r.random() < 0.9 else "None")]
        for n in nodes:
            ops.append(dict(op="addn", g="g", n=n, at=[], label=r.choice(["np", "vp"]), tk=r.choice(NTOKS)))
        # a tree over `order` (shuffled insertion), then perhaps extra edges making it a graph
        es = [(order[r.randrange(i)], order[i]) for i in range(1, len(order))]
        r.shuffle(es)
        for u, v in es:
            ops.append(dict(op="adde", g="g", u=u, v=v, at=[], label="hd"))
        if r.random() < 0.4:
            for _ in range(r.randint(1, 3)):
                u, v = r.choice(nodes), r.choice(nodes)
                ops.append(dict(op="adde", g="g", u=u, v=v, at=[], label="x"))
        for _ in range(r.choice([0, 0, 1, 3])):
            o = r.choice(["rme", "settk", "setgt", "rmn", "copy"])
            if o == "rme" and es:
                u, v = es.pop()
                ops.append(dict(op="rme", g="g", u=u, v=v))
            elif o == "settk" and nodes:
                ops.append(dict(op="settk", g="g", n=r.choice(nodes), tk=r.choice(NTOKS[1:]), how=r.choice(["list", "string"])))
            elif o == "setgt":
                ops.append(dict(op="setgt", g="g", tk=r.choice(TOKS), sep=r.choice([" ", "\t", "  "]), pad=r.choice(["", " ", "\n"])))
            elif o == "copy":
                ops.append(dict(op="copy", g="g", h="h"))
            elif o == "rmn" and len(nodes) > 1:
                n = r.choice([x for x in nodes if x != root])
                nodes.remove(n)
                es = [e for e in es if n not in e]
                ops.append(dict(op="rmn", g="g", n=n))
        for o in ops:
            o["q_"] = 0
        ops.append(dict(op="look", g="g", q_=1, q2=1))
        plans.append(dict(run="rnd%d" % k, params={}, ops=ops))
    tr = ck.drive("graph_driver.py", plans, procs=6)
    ck.judge("OGraphTrace", tr, tcfg())
