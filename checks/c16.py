from checks.gpcommon import *

from checks.c12 import one_to_one

RELS = ["equals", "restates", "specifies"]
RELX = ["equals", u"\u00e9quivaut \u00e0", "restates"]


def graph(rng, side, words=("a", "bb", "c,", u"\u00e9t\u00e9", "x.", "12", '"q"'), labels=("noun", "np", u"caf\u00e9", "x y")):
    """a two-level tree over a few words; node ids are numbers, not in document order"""
    n = rng.randint(1, 6)
    ws = [rng.choice(words) for _ in range(n)]
    ids = rng.sample(range(0, 40), n + 3)
    nodes, edges = [], []

    def add(b, e, nt):
        i = str(ids[len(nodes)])
        nodes.append(dict(id=i, label=rng.choice(labels), begin=str(b), end=str(e), text=" ".join(ws[b:e]), nt=nt))
        return i
    root = add(0, n, True)
    mid = add(0, max(1, n // 2), True) if rng.random() < .7 else None
    if mid:
        edges.append([root, mid])
    for k in range(n):
        x = add(k, k + 1, False)
        edges.append([mid if mid and k < max(1, n // 2) else root, x])
    rk = sorted(int(x["id"]) for x in nodes)
    for x in nodes:
        x["rank"] = rk.index(int(x["id"]))
    return dict(text=" ".join(ws), nodes=nodes, edges=edges)


FIX = dict(text="a b", nodes=[dict(id="0", label="s", begin="0", end="2", text="a b", nt=True, rank=0),
                              dict(id="1", label="n", begin="0", end="1", text="a", nt=False, rank=1),
                              dict(id="2", label="n", begin="1", end="2", text="b", nt=False, rank=2)],
           edges=[["0", "1"], ["0", "2"]])


def up(rels):
    return dict((r, r.upper()) for r in rels)


def run(ck):
    plans = []
    for lab, np, rels in [("3 node pairs, 1 relation", "NP3", '{"equals"}'), ("2 node pairs, 2 relations", "NP2", '{"equals", "restates"}')] + \
                         ([("3 node pairs, 2 relations", "NP3", '{"equals", "restates"}')] if ck.tier == "thorough" else []):
        c = dict(NodePairs=np, Rels=rels, NonTerms='<<{"0"}, {"0"}>>')
        cfg = mcfg(["Partition", "Swap", "Same", "Limits"], [], c).replace("NodePairs = ", "NodePairs <- ").replace('NonTerms = <<{"0"}, {"0"}>>', "NonTerms <- NT0")
        plans += ck.model("Diff", cfg, "Diff " + lab, tag="PLAN")
    one = lambda c: sorted(map(sorted, c)) == sorted(map(sorted, one_to_one(c)))     # corpora are one-to-one
    plans = [h for h in plans if one(h[0]["A"]) and one(h[0]["B"])]
    lim = ck.n(500, 10**9)
    if len(plans) > lim:
        plans = ck.rng.sample(plans, lim)
    base = dict(pairs=[dict(s=FIX, t=FIX, comments=[["Ann", ""], ["Bob", ""]])], rels=["equals", "restates"], up=up(["equals", "restates"]))
    out = []
    for k in range(0, len(plans), 10):
        out.append(dict(run="t%d" % k, params=base, ops=[dict(o, evaluate=False) for h in plans[k:k + 10] for o in h]))
    for k in range(ck.n(60, 800)):
        an = ck.rng.choice([["Ann", "Bob"], ["First annotator", "Second annotator"], [u"Zo\u00eb", "B"]])
        com = ["", "", "some remark", "?", u"caf\u00e9 & <b>"]
        pairs = [dict(s=graph(ck.rng, "s"), t=graph(ck.rng, "t"), comments=[[a, ck.rng.choice(com)] for a in an]) for _ in range(ck.rng.choice([1, 1, 2, 4]))]
        REL = ck.rng.choice([RELS, RELS, RELX])
        REL2 = REL + ["echoes"] * (k % 3 == 0)       # relations of the second corpus
        ops = []
        for _ in range(3):
            A, B = [], []
            for p in pairs:
                np = [(x["id"], y["id"]) for x in p["s"]["nodes"] for y in p["t"]["nodes"]]
                d = ck.rng.choice([0, .1, .3])
                a = dict((q, ck.rng.choice(REL)) for q in np if ck.rng.random() < d)
                b = {}
                for q in np:
                    z = ck.rng.random()
                    if q in a and z < .7:
                        b[q] = a[q] if z < .4 else ck.rng.choice(REL2)
                    elif q not in a and z < .05:
                        b[q] = ck.rng.choice(REL2)
                A.append([[s, t, r] for (s, t), r in a.items()])
                B.append([[s, t, r] for (s, t), r in b.items()])
            A, B = one_to_one(A), one_to_one(B)
            if ck.rng.random() < .2:
                B = A
            o = dict(op="diff", A=A, B=B, evaluate=False, words=ck.rng.random() < .4, ident=ck.rng.random() < .6, comments=ck.rng.random() < .5,
                     rels=ck.rng.choice([[], [], REL, REL[:1], REL[1:], ["other"]]))
            if ck.rng.random() < .3 and (REL is RELS or not o["rels"]):
                o["words"] = False
                o["script"] = 1
                o["evaluate"] = REL2 == RELS and ck.rng.random() < .5   # the script evaluates the five Daeso relations only
            o["norel"] = ck.rng.choice(["none", "list", "tuple"])
            ops.append(o)
        out.append(dict(run="rnd%d" % k, params=dict(pairs=pairs, rels=REL, rels2=REL2, up=up(REL2)), ops=ops))
    tr = ck.drive("diff_driver.py", out)
    ck.judge("DiffTrace", tr, tcfg())
