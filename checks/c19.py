from checks.gpcommon import *
from checks.c17 import rnd_tree


def run(ck):
    plans = []
    for lab, c in [("one document", dict(FTags="F3", TTags="T3", MaxPairs=1)), ("two documents", dict(FTags="F2", TTags="T2", MaxPairs=2))]:
        plans += ck.model("PtcEval", mcfg(["Sane", "Swap", "Agree"], [], c).replace("Tags = ", "Tags <- "), "PtcEval " + lab, tag="PLAN")

    def el(tag, depth, i, text):
        return dict(tag=tag, depth=depth, id=i, text=text, tail="")
    D3 = {"from": [el("p", 0, "p1", ""), el("s", 1, "s1", "a"), el("s", 1, "s2", "b")], "to": [el("s", 0, "x", ""), el("p", 1, "p1", "c"), el("s", 1, "y", "d")]}
    D2 = {"from": [el("p", 0, "p1", ""), el("s", 1, "s1", "a")], "to": [el("s", 0, "x", ""), el("s", 1, "y", "d")]}
    hows = [["id", "id"], ["n", "n"], ["n", "id"], ["id", "none"], ["none", "n"]]
    lim = ck.n(1500, 10**9)
    if len(plans) > lim:
        plans = ck.rng.sample(plans, lim)
    out = {1: [], 2: []}
    for k, h in enumerate(plans):
        rows = [dict(T=r["T"], P=r["P"]) for r in h]
        ops = out[len(rows)]
        ops.append(dict(op="eval", rows=rows, tag=ck.rng.choice(["p", "s", "s"]), how=ck.rng.choice(hows), via=ck.rng.choice(["api", "labels"])))
        if len(rows) == 1:
            ops.append(dict(op="diff", rows=rows, tag=ck.rng.choice(["p", "s", "s"]), how=ck.rng.choice(hows), via=ck.rng.choice(["docs", "api"])))
    res = [dict(run="t%d-%d" % (n, k), params=dict(docs=[D3] if n == 1 else [D2, D2]), ops=o[k:k + 20]) for n, o in out.items() for k in range(0, len(o), 20)]
    for k in range(ck.n(80, 1000)):
        rng = ck.rng
        tags = rng.choice([["p", "s"], ["s"], ["s", "w", "p"]])
        words = rng.choice([["", "x", u"caf\u00e9", "two words"], ["w%d" % i for i in range(50)]])
        ids = rng.choice(["all", "all", False])
        docs = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            d = {}
            for s in ("from", "to"):
                d[s] = rnd_tree(rng, rng.choice([3, 8, 20]), tags, words, ids=ids)
                # every tag occurs, and texts are on one line
                for t in tags:
                    if t not in [x["tag"] for x in d[s]]:
                        d[s].append(dict(tag=t, depth=1, id=t + "1" if ids else "", text="x", tail=""))
            if rng.random() < .3:
                for s in d:
                    for x in d[s]:
                        if x["id"]:
                            x["id"] += u"\u00e9"
            docs.append(d)
        ops = []
        for _ in range(3):
            rows = []
            mixed = rng.random() < .5
            for d in docs:
                ps = [(i + 1, j + 1) for i, x in enumerate(d["from"]) for j, y in enumerate(d["to"]) if x["tag"] == y["tag"] or mixed and rng.random() < .1]
                q = rng.choice([0, .1, .4])
                T = [p for p in ps if rng.random() < q]
                P = [p for p in ps if (p in T and rng.random() < .6) or rng.random() < .05]
                rng.shuffle(T)
                rng.shuffle(P)
                rows.append(dict(T=T, P=rng.choice([P, P, T])))
            how = rng.choice(hows if ids else [["n", "n"], ["none", "n"]])
            ops.append(dict(op="eval", rows=rows, tag=rng.choice(tags), how=how, via=rng.choice(["api", "labels", "script"])))
            ops.append(dict(op="diff", rows=rows[:1], tag=rng.choice(tags), how=how, via=rng.choice(["api", "docs", "script"])))
            if rng.random() < .3:
                ops[-1]["enc"] = rng.choice(["utf-8", "latin-1"])
        res.append(dict(run="rnd%d" % k, params=dict(docs=docs), ops=ops))
    tr = ck.drive("ptceval_driver.py", res)
    ck.judge("PtcEvalTrace", tr, tcfg())
