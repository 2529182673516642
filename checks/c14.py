from checks.gpcommon import *

REL5 = "equals restates specifies generalizes intersects".split()


def has_empty(o):
    return any(not n["tokens"] for gs in o["banks"].values() for g in gs for n in g["nodes"])


def rnd_world(rng):
    words = ["w", "huis", "de", "kat", "x1", ".net", "(s)", "-1"]
    punct = [".", ",", "!", "?", "(", ")", "-"]
    empties = rng.random() < .5
    banks, fail = {}, {}
    for b in ["a", "b", "c"][:rng.choice([1, 2, 2, 3])]:
        gs = []
        for k in range(rng.choice([1, 2, 4])):
            nn = rng.choice([1, 3, 6])
            nodes = []
            for j in range(nn):
                t = [rng.choice(words + punct) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                if rng.random() < .2:
                    t = [rng.choice(punct)]
                if empties and rng.random() < .2:
                    t = []
                nodes.append(dict(id="n%d" % j, tokens=t))
            gid = rng.choice(["g%d", b + "%d"]) % k
            if gid in [g["id"] for g in gs]:
                continue
            f = fail.setdefault(gid, rng.random() < .25)
            gs.append(dict(id=gid, root="n%d" % rng.randrange(nn), failed=f, nodes=nodes,
                           tokens=[rng.choice(words + punct) for _ in range(rng.choice([1, 4, 7]))]))
        banks[b] = gs
    corpora = []
    for k in range(rng.choice([1, 1, 2, 3])):
        pairs = []
        for _ in range(rng.choice([0, 1, 3, 6])):
            sb, tb = rng.choice(sorted(banks)), rng.choice(sorted(banks))
            s, t = rng.choice(banks[sb]), rng.choice(banks[tb])
            al, us, ut = [], set(), set()
            if rng.random() < .7:
                al.append([s["root"], t["root"], rng.choice(REL5)])
                us.add(s["root"])
                ut.add(t["root"])
            for n in s["nodes"]:
                m = rng.choice(t["nodes"])["id"]
                if n["id"] not in us and m not in ut and rng.random() < .7:
                    al.append([n["id"], m, rng.choice(REL5)])
                    us.add(n["id"])
                    ut.add(m)
            rng.shuffle(al)
            pairs.append(dict(sb=sb, sg=s["id"], tb=tb, tg=t["id"], al=al))
        corpora.append(dict(name="c%d.pgc" % k, pairs=pairs))
    return banks, corpora, sorted(banks, key=lambda b: rng.random())


def run(ck):
    hists = []
    for als, n in [("AlsL", 1), ("AlsS", 2)] if ck.quick else [("AlsL", 2)]:
        c = dict(Rels='{"equals"}', MaxPairs=n, Als=als)
        hists += ck.model("Stats", mcfg(["PartsAddUp", "Monotone", "Excluded"], [], c).replace("Als = ", "Als <- "),
                          "Stats: corpora of %d pairs over two graphbanks, all options" % n, tag="PLAN", workers=8)
    ops = []
    L = "efpru"
    lim = ck.n(500, 10**9)
    if len(hists) > lim:
        hists = ck.rng.sample(hists, lim)
    for k, h in enumerate(hists):
        o = dict(h[0], how="mem", order=["a", "b"], opts=[l for j, l in enumerate(L) if (k * 7 + 3) >> j & 1 or k % 9 == 0])
        ops.append(o)
    plans = [dict(run="t%d" % (k // 8), ops=ops[k:k + 8]) for k in range(0, len(ops), 8)]
    for k in range(ck.n(120, 1500)):
        ops = []
        for _ in range(3):
            banks, corpora, order = rnd_world(ck.rng)
            o = dict(op="stats", banks=banks, corpora=corpora, order=order, leg=ck.rng.randint(0, 1),
                     opts=[l for l in L if ck.rng.random() < ck.rng.choice([.2, .5, 1])])
            o["how"] = "mem" if has_empty(o) else ck.rng.choice(["pgc", "pgc", "gb", "script", "gbscript", "mem"])
            ops.append(o)
        plans.append(dict(run="rnd%d" % k, ops=ops))
    tr = ck.drive("stats_driver.py", plans)
    ck.judge("StatsTrace", tr, tcfg())
