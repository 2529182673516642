from checks.gpcommon import *

KINDS = ["str", "unicode", "list", "tuple"]


def rnd_seq(rng, alpha, n):
    return [rng.choice(alpha) for _ in range(n)]


def near(rng, alpha, q):
    """a sequence with some edits"""
    q = list(q)
    for _ in range(rng.choice([0, 1, 2, 4])):
        z = rng.random()
        i = rng.randrange(len(q) + 1)
        if z < .4:
            q.insert(i, rng.choice(alpha))
        elif i < len(q):
            if z < .7:
                del q[i]
            else:
                q[i] = rng.choice(alpha)
    return q


def kinds(rng, alpha, *qs):
    """types fit for the items: words need lists or tuples, str needs ASCII"""
    one = all(len(x) == 1 for q in qs for x in q)
    asc = all(ord(c) < 128 for q in qs for x in q for c in x)
    return rng.choice([k for k in KINDS if (one or k in ("list", "tuple")) and (asc or k != "str")])


def run(ck):
    plans = []
    for lab, c in [("pairs", dict(Items='{"x", "y"}', MaxLen=3, Width=2)), ("triples", dict(Items='{"x", "y"}', MaxLen=2, Width=3))] + \
                  ([("longer pairs", dict(Items='{"x", "y", "z"}', MaxLen=3, Width=2))] if ck.tier == "thorough" else []):
        plans += ck.model("SeqDist", mcfg(["LevIsLeast", "LcsIsLongest", "Bounds", "Triangle", "Median"], [], c), "SeqDist " + lab, workers=8, tag="PLAN")
    ops = []
    for h in plans:
        if len(h) == 2:
            for op in ("lev", "lcs"):
                ops.append(dict(op=op, a=h[0], b=h[1], ka=ck.rng.choice(KINDS), kb=ck.rng.choice(KINDS)))
        else:
            ops.append(dict(op="median", strings=h, ka=ck.rng.choice(KINDS), dist=ck.rng.choice(["lev", "lcs", "len"])))
    for _ in range(ck.n(1500, 20000)):
        rng = ck.rng
        alpha = rng.choice(["ab", "abcde", u"a\u00e9\u4e2d", ["de", "kat", "zit", "op"], [str(i) for i in range(40)]])
        a = rnd_seq(rng, alpha, rng.choice([0, 1, 3, 7, 12, rng.randint(0, 25)]))
        z = rng.random()
        if z < .8:
            b = near(rng, alpha, a) if rng.random() < .6 else rnd_seq(rng, alpha, rng.randint(0, 12))
            if rng.random() < .2:
                a, b = b, a
            ops.append(dict(op=rng.choice(["lev", "lcs"]), a=a, b=b, ka=kinds(rng, alpha, a), kb=kinds(rng, alpha, b)))
        else:
            q = [near(rng, alpha, a[:8]) for _ in range(rng.randint(1, 7))]
            ops.append(dict(op="median", strings=q, ka=kinds(rng, alpha, *q), dist=rng.choice(["lev", "lev", "lcs", "len"])))
    for o in ops:       # a str and a unicode with other than ASCII characters do not compare
        if "kb" in o and {o["ka"], o["kb"]} == {"str", "unicode"}:
            o["kb"] = o["ka"] = "unicode"
    out = [dict(run="s%d" % k, params={}, ops=ops[k:k + 25]) for k in range(0, len(ops), 25)]
    tr = ck.drive("seq_driver.py", out)
    ck.judge("SeqDistTrace", tr, tcfg())
