from checks.gpcommon import *

INV = ["MatchingsOneToOne", "RelationsUnique", "QueriesAgree"]
PROPS = ["Frame", "Independence"]
ROOTS = {"s": "s:a", "t": "s:b"}


def run(ck, kind="match"):
    # 1. exhaustive model; node names occur on both sides; one plan per transition
    nodes = '{"s:a", "s:b", "s:c"}'
    tn = nodes if kind == "match" else '{"s:a", "s:b"}'
    c = dict(Kinds='{"%s"}' % kind, SNodes=nodes, TNodes=tn, Rels='{"equals", "restates"}',
             Objs='{"x"}', Metas='{"m0"}', Banks='{"b1"}', MaxLen=40)
    hists = ck.model("GraphPairs", mcfg(INV, PROPS, c), "GraphPairs %s 3x%d nodes, 2 relations" % (kind, 3 if kind == "match" else 2), tag="PLAN")
    S = ["s:a", "s:b", "s:c"]
    T = S if kind == "match" else S[:2]
    rels = ["equals", "restates"]
    plans = []
    for k, h in enumerate(hists):
        plans.append(dict(run="t%d" % k, params=dict(S=S, T=T, rels=rels, roots=ROOTS), ops=only_last(h)))
    lim = ck.n(6000, 10**9)
    if len(plans) > lim:
        plans = ck.rng.sample(plans, lim)
    # 2. random histories: more nodes, odd node ids (ints, zero, empty, unicode), re-alignment chains
    pools = [["s:n%d" % i for i in range(8)], ["i:%d" % i for i in range(6)], ["s:", "i:0", "s:0", "u:\u00e9", "s:a b", "i:-1"],
             ["s:1"], ["s:1", "s:2"]]
    rels5 = "equals restates specifies generalizes intersects".split()
    for k in range(ck.n(150, 1500)):
        P = ck.rng.choice(pools)
        Q = ck.rng.choice([P, P, ck.rng.choice(pools)])
        roots = ck.rng.choice([{"s": P[0], "t": Q[-1]}, {"s": P[-1], "t": Q[0]}, {"s": P[0], "t": Q[0]}, {"s": P[0]}, {}])
        ops = [dict(op="new", o="x", kind=kind, sb="b1", tb="b2", sg="g1", tg="g2", meta="m0")]
        cur = []
        for _ in range(ck.rng.randint(5, 40)):
            x = ck.rng.random()
            if x < 0.68 or not cur:
                s, t = ck.rng.choice(P), ck.rng.choice(Q)
                ops.append(dict(op="add", o="x", s=s, t=t, r=ck.rng.choice(rels5)))
                cur.append((s, t))
            elif x < 0.9:
                s, t = ck.rng.choice(cur)
                ops.append(dict(op="del", o="x", s=s, t=t))
            else:
                ops.append(dict(op="del", o="x", s=ck.rng.choice(P), t=ck.rng.choice(Q)))
        plans.append(dict(run="rnd%d" % k, params=dict(S=P, T=Q, rels=rels5, roots=roots), ops=ops))
    tr = ck.drive("gp_driver.py", plans)
    ck.judge("GraphPairsTrace", tr, tcfg())
    ck.cov["plans_from_model"] = sum(1 for p in plans if p["run"][0] == "t")
