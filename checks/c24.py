from checks.gpcommon import *
from checks.c21 import rnd_seq, near, kinds, KINDS


def run(ck):
    plans = []
    for lab, c in [("pairs", dict(Items='{"x", "y"}', MaxLen=3, Width=2)), ("triples", dict(Items='{"x", "y", "z"}', MaxLen=1, Width=3))] + \
                  ([("longer pairs", dict(Items='{"x", "y", "z"}', MaxLen=3, Width=2))] if ck.tier == "thorough" else []):
        plans += ck.model("Sim", mcfg(["Symmetric", "InUnit", "Alike", "Unlike", "Ordered", "General", "GBound", "NGrams"], [], c), "Sim " + lab, workers=8, tag="PLAN")
    docs = []
    for lab, c in [("three documents", dict(Items='{"x", "y"}', MaxLen=2, Width=3 if ck.tier == "quick" else 4))]:
        docs += ck.model("TfIdf", mcfg(["Zero", "Bound", "Rarer", "Order"], [], c), "TfIdf " + lab, workers=8, tag="PLAN")
    rng = ck.rng
    ops = []

    def sim(a, b, ks=KINDS):
        # token match counts in the first and looks up in the second: sets and dictionaries have no repeated items
        return dict(op="sim", a=a, b=b, ka=rng.choice(ks + (["set", "dict"] if len(set(a)) == len(a) else [])), kb=rng.choice(ks + (["set", "dict"] if len(set(b)) == len(b) else [])))

    def tfidf(q):
        f = rng.choice(["idf", "tf_idf", "tf_idf"])
        return dict(op="tfidf", docs=q, ka=rng.choice(["list", "tuple"]), f=f, norm=rng.random() < .5, ind=rng.random() < .4)
    for h in plans:
        if len(h) == 2:
            ops.append(sim(*h))
        ops.append(dict(op="gsim", seqs=h, ka=rng.choice(KINDS)))
    lim = ck.n(300, 10**9)
    ops += [tfidf(h) for h in (docs if len(docs) <= lim else rng.sample(docs, lim))]
    for _ in range(ck.n(900, 20000)):
        alpha = rng.choice(["ab", "abcde", u"a\u00e9\u4e2d", ["de", "kat", "zit", "op"], [str(i) for i in range(40)]])
        a = rnd_seq(rng, alpha, rng.choice([0, 1, 2, 4, 8, rng.randint(0, 30)]))
        b = near(rng, alpha, a) if rng.random() < .5 else rnd_seq(rng, alpha, rng.randint(0, 20))
        z = rng.random()
        if z < .5:
            ops.append(sim(a, b, ["list", "tuple"] + ([k for k in ("unicode",) if all(len(x) == 1 for x in a + b)])))
        elif z < .65:
            ops.append(dict(op="gsim", seqs=[near(rng, alpha, a) for _ in range(rng.randint(0, 4 if len(a) < 12 else 2))], ka=rng.choice(["list", "tuple"])))
        else:
            ops.append(tfidf([near(rng, alpha, a) if rng.random() < .5 else rnd_seq(rng, alpha, rng.randint(0, 9)) for _ in range(rng.choice([0, 1, 2, 3, 5, 12, 40]))]))
    for o in ops:
        o["ka"] = {"str": "unicode"}.get(o["ka"], o["ka"]) if o.get("kb") == "unicode" else o["ka"]
    out = [dict(run="s%d" % k, params={}, ops=ops[k:k + 25]) for k in range(0, len(ops), 25)]
    tr = ck.drive("seq_driver.py", out)
    ck.judge("SimTrace", tr, tcfg())
