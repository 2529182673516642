from checks.gpcommon import *
from checks.c21 import rnd_seq, near, kinds, KINDS


def run(ck):
    plans = []
    for lab, c in [("pairs", dict(Items='{"x", "y"}', MaxLen=3, Width=2)), ("long", dict(Items='{"x", "y"}', MaxLen=5 if ck.tier == "quick" else 7, Width=1))] + \
                  ([("longer pairs", dict(Items='{"x", "y"}', MaxLen=4, Width=2))] if ck.tier == "thorough" else []):
        plans += ck.model("Rouge", mcfg(["Range", "Same", "Sym", "SkipLaws"], [], c), "Rouge " + lab, workers=8, tag="PLAN")
    rng = ck.rng
    ops = []

    def one(a, k, alpha):
        z = rng.random()
        if z < .4:
            return dict(op="ngrams", a=a, ka=k, n=rng.choice([1, 2, 2, 3, 5]), pad=rng.choice([-1, 0, 1, 2, 3]), sep=rng.choice([" ", "", "-"]), **{"with": rng.choice(["_", "#"])})
        if z < .7:
            ns = rng.sample([1, 2, 3, 4, 5], rng.randint(1, 3))
            on = rng.random() < .6
            return dict(op="range", a=a, ka=k, ns=ns, on=on, sizes=[rng.randint(0, 3) for _ in ns] if rng.random() < .4 else [], **{"with": rng.choice(["_", "#"])})
        return dict(op="sgrams", a=a, ka=k, d=rng.choice([-1, 0, 1, 2, 4, 50]))

    def pair(a, b, c, k):
        z = rng.random()
        if z < .4:
            refs = [b, c, b][:rng.choice([1, 1, 2, 3])] if rng.random() < .95 else []
            return dict(op="rouge_n", a=a, refs=refs, ka=k, n=rng.choice([1, 1, 2, 3]))
        o = dict(op="rouge_l", a=a, b=b, ka=k, kb=k, beta=rng.choice([1, 1, 2, 3]))
        return o if z < .7 else dict(o, op="rouge_s", d=rng.choice([-1, 0, 1, 2, 4]))
    for h in plans:
        if len(h) == 1:
            ops += [one(h[0], rng.choice(KINDS), "xy") for _ in range(3)]
        else:
            ops += [pair(h[0], h[1], h[0], rng.choice(["list", "tuple"])) for _ in range(2)]
            ops.append(dict(op="rouge_s", a=h[0], b=h[1], ka="tuple", kb="list", beta=1, d=rng.choice([-1, 0, 1])))
    for _ in range(ck.n(900, 20000)):
        alpha = rng.choice(["ab", "abcde", u"a\u00e9\u4e2d", ["de", "kat", "zit", "op"], [str(i) for i in range(40)]])
        a = rnd_seq(rng, alpha, rng.choice([0, 1, 2, 4, 8, rng.randint(0, 14)]))
        b = near(rng, alpha, a) if rng.random() < .6 else rnd_seq(rng, alpha, rng.randint(0, 12))
        if rng.random() < .5:
            ops.append(one(a, kinds(rng, alpha, a), alpha))
        else:
            ops.append(pair(a, b, near(rng, alpha, a), rng.choice(["list", "tuple"])))
    out = [dict(run="s%d" % k, params={}, ops=ops[k:k + 25]) for k in range(0, len(ops), 25)]
    tr = ck.drive("seq_driver.py", out)
    ck.judge("RougeTrace", tr, tcfg())
