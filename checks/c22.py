from checks.gpcommon import *
from checks.c21 import rnd_seq, near, kinds, KINDS
import random, itertools


def strict_bank():
    """fixed inputs for which successive alignments are judged in full (whatever the seed)"""
    rng = random.Random(22)
    res = []
    for k in range(60):
        al = "AB" if k % 2 else "ABC"
        m, x, g = rng.choice([(5, 0, -5), (10, -9, -20), (2, -1, -1), (3, -2, -2), (2, -2, -3)])
        a, b = [[rng.choice(al) for _ in range(rng.randint(1, 5))] for _ in "12"]
        res.append((a, b, m, x, g))
    res.append((list("ABCCBA"), list("CBAABC"), 5, 0, -5))
    res.append((list("BCBACB"), list("BCBC"), 3, -2, -1))
    return res


def tables(alpha, m, x, g):
    return dict(sim=dict((p, dict((q, m if p == q else x) for q in alpha)) for p in alpha), gap=dict((p, g) for p in alpha))


def run(ck):
    plans = []
    for lab, n in [("two items", 3 if ck.tier == "quick" else 4)]:
        cfg = mcfg(["GlobalIsBest", "LocalIsBest", "Mirror", "AtLeast", "UsedLess", "UsedNone"], [], dict(Items='{"x", "y"}', MaxLen=n, Params="MCParams")).replace("Params = ", "Params <- ")
        plans += ck.model("SeqAlign", cfg, "SeqAlign " + lab, workers=8, tag="PLAN")
    ops = []
    lim = ck.n(700, 10**9)
    if len(plans) > lim:
        plans = ck.rng.sample(plans, lim)
    for h in plans:
        for op in ("global", "local", "eggert"):
            o = dict(op=op, a=h["a"], b=h["b"], sim=h["sim"], gap=h["gap"], ka=ck.rng.choice(KINDS), kb=ck.rng.choice(KINDS))
            if op == "eggert":
                o.update(limit=ck.rng.choice([1, 2, 8]), less=1, strict=False)
            ops.append(o)
    for _ in range(ck.n(500, 10000)):
        rng = ck.rng
        alpha = rng.choice(["ab", "abcd", u"a\u00e9\u4e2d", ["de", "kat", "zit", "op"]])
        a = rnd_seq(rng, alpha, rng.choice([0, 1, 3, 6, 10, rng.randint(0, 14)]))
        b = near(rng, alpha, a) if rng.random() < .6 else rnd_seq(rng, alpha, rng.randint(0, 12))
        z = rng.random()
        if z < .4:
            t = tables(alpha, rng.randint(0, 10), rng.randint(-9, 1), rng.randint(-20, 0))
        elif z < .8:        # every item has its own cost, every pair its own similarity
            t = dict(sim=dict((p, dict((q, rng.randint(-5, 5)) for q in alpha)) for p in alpha), gap=dict((p, rng.randint(-6, -1)) for p in alpha))
        else:
            t = dict(sim=dict((p, dict((q, rng.randint(-5, 0)) for q in alpha)) for p in alpha), gap=dict((p, rng.randint(-3, 0)) for p in alpha))
        op = rng.choice(["global", "local", "eggert"])
        o = dict(op=op, a=a, b=b, ka=kinds(rng, alpha, a), kb=kinds(rng, alpha, b), **t)
        if op == "eggert":
            n = rng.choice([1, 2, 5, 10])
            o.update(limit=n, less=rng.randint(1, n), strict=False)
        ops.append(o)
    for k, o in enumerate(ops):
        # matrices are printed with their items, which are taken to be ASCII
        if k % 4 == 1:
            o["den"] = 4
        elif o["op"] != "eggert" and o["a"] and o["b"] and k % 4 in (0, 2) and all(ord(c) < 128 for x in o["a"] + o["b"] for c in x):
            o["print"] = 1
    out = [dict(run="s%d" % k, params={}, ops=ops[k:k + 25]) for k in range(0, len(ops), 25)]
    for a, b, m, x, g in strict_bank():
        out.append(dict(run="strict %s %s %d %d %d" % ("".join(a), "".join(b), m, x, g), params={},
                        ops=[dict(op="eggert", a=a, b=b, ka="str", kb="str", limit=40, less=2, strict=True, **tables("ABC", m, x, g))]))
    tr = ck.drive("seq_driver.py", out)
    ck.judge("SeqAlignTrace", tr, tcfg())
