from checks.gpcommon import *
from checks.c17 import rnd_tree


def run(ck):
    plans = ck.model("TextAlign", mcfg(["GreedyIsOk", "NeverEmpty", "BestIn"], [], dict(FTree="FT0", TTree="TT0", Scores="{0, 1, 2}" if ck.tier == "quick" else "{0, 1, 2, 3}", MaxLinks=1)).replace("Tree = ", "Tree <- "),
                     "TextAlign two by two", tag="PLAN")

    def el(tag, depth, i, text):
        return dict(tag=tag, depth=depth, id=i, text=text, tail="")
    D = [el("d", 0, "d1", ""), el("s", 1, "s1", "a"), el("s", 1, "s2", "b")]
    ops = []
    for h in plans:
        scale = ck.rng.choice([lambda v: 30 * v, lambda v: 30 * v, lambda v: 47 + v, lambda v: 50 + v])    # scores far apart or close
        tab = [["ab"[i - 2], "ab"[j - 2], scale(v)] for i, j, v in h["scores"]]
        g = ck.rng.random() < .3
        ops.append([dict(op="links", how=ck.rng.choice(["n", "id", "none"]), links=[])] + ([dict(op="trees")] if g else []) +
                   [dict(op="align", focus=["s", "s"], scope=ck.rng.choice([[["d"], ["d"]], [[], []]]), terms=dict(kind="text", n=0), sim="table", table=tab,
                         filter=f, th=scale(h["th"]), clear=True, given=g, dflt=False) for f in ["nocross", "threshold"]])
    for o in ops:
        if o[-1]["scope"][0]:
            o[0]["links"] = [[1, 1]]
    lim = ck.n(240, 10**9)
    if len(ops) > lim:
        ops = ck.rng.sample(ops, lim)
    out = [dict(run="t%d" % k, params={"from": D, "to": D, "ignore": [[], []]}, ops=sum(ops[k:k + 10], [])) for k in range(0, len(ops), 10)]
    WORDS = ["de kat zit", "De kat , zit op het dak .", "een hond", "Een Hond !", "a", "b b a", "", "x-y z", "kat", "het de een", "(b) b", "kat kat zit"]
    for k in range(ck.n(70, 1200)):
        rng = ck.rng
        tags = rng.choice([["d", "p", "s"], ["p", "s", "n"], ["p", "s"], ["s", "p", "w"]])
        words = rng.choice([WORDS, WORDS[:4], ["w%d" % i for i in range(30)]])
        how = rng.choice(["n", "id", "none"])
        F, T = [rnd_tree(rng, rng.choice([4, 9, 16]), tags, words, ids="all") for _ in "12"]
        ign = [[t for t in ["n", "w"] if rng.random() < .5] for _ in "12"]
        if rng.random() < .1:
            ign[0] = ign[0] + [rng.choice(tags)]
        ops = []
        trees = False
        for _ in range(rng.choice([2, 4, 6])):
            foc = rng.choice([["s", "s"], ["s", "s"], ["s", "p"], ["p", "p"], ["s", "w"]])
            scp = [[t for t in tags if t != foc[0]], [t for t in tags if t != foc[1]]]
            sel = [[t for t in x if rng.random() < .7] or x[:1] for x in scp]
            scope = rng.choice([sel, sel, [[], []]])
            if scope[0] and (foc[0] in scope[0] or foc[1] in scope[1]):
                continue
            if not scope[0] and (F[0]["tag"] == foc[0] or T[0]["tag"] == foc[1]):
                continue
            if rng.random() < .6 or not ops:
                ps = [(i + 1, j + 1) for i, x in enumerate(F) for j, y in enumerate(T) if (i == 0) == (j == 0)]
                q = rng.choice([.05, .15])
                links = [list(p) for p in ps if rng.random() < (.7 if p == (1, 1) else q)]
                rng.shuffle(links)
                ops.append(dict(op="links", how=how, links=links))
                if rng.random() < .5:
                    ops.append(dict(op="trees"))
                    trees = True
            sim = rng.choice(["table", "table", "table", "equals", "jaccard", "dice", "tanimoto", "cosine", "type_match", "overlap_min", "overlap_max", "weighted"])
            kind = "text" if sim == "table" else rng.choice(["word", "char", "preword", "stopword", "prechar"])
            o = dict(op="align", focus=foc, scope=scope, terms=dict(kind=kind, n=rng.choice([1, 1, 2, 3])), sim=sim, table=[],
                     filter=rng.choice(["none", "threshold", "nocross", "nocross"]), th=rng.choice([0, 10, 30, 50, 100]), clear=rng.random() < .7, given=trees and rng.random() < .5,
                     dflt=rng.random() < .2)
            if o["dflt"] and kind != "text":
                o["terms"] = dict(kind="word", n=1)
            ops.append(o)
        out.append(dict(run="rnd%d" % k, params={"from": F, "to": T, "ignore": ign}, ops=ops))
    # sections of several kinds, aligned many to many; close scores; tokens starting with punctuation
    for k in range(ck.n(30, 400)):
        rng = ck.rng
        num = [0]

        def doc(side):
            t = [el("d", 0, side + "d", "")]
            for _ in range(rng.choice([1, 2, 3, 4])):
                t.append(el(rng.choice("ppq"), 1, side + str(len(t)), ""))
                for _ in range(rng.choice([1, 2, 3, 4, 5])):
                    num[0] += 1
                    t.append(el("s", 2, side + str(len(t)), rng.choice(["w%d" % num[0], ".net", "de .net kat", "(s) -1 w3", "", "w1 w2 w3", "de kat", "kat w1"])))
            return t
        F, T = doc("f"), doc("t")
        ops = []
        for _ in range(3):
            ps = [(i + 1, j + 1) for i, x in enumerate(F) for j, y in enumerate(T) if x["depth"] == y["depth"] == 1]
            links = [list(p) for p in ps if rng.random() < .5]
            rng.shuffle(links)
            ops.append(dict(op="links", how=rng.choice(["n", "id", "none"]), links=links))
            sim = rng.choice(["table", "table", "weighted", "jaccard", "dice"])
            ops.append(dict(op="align", focus=["s", "s"], scope=rng.choice([[["p"], ["p"]], [["p"], ["q"]], [["p", "q"], ["p"]], [["p", "q"], ["p", "q"]]]),
                            terms=dict(kind="text", n=0) if sim == "table" else dict(kind=rng.choice(["word", "preword", "stopword"]), n=1),
                            sim=sim, table=[], filter=rng.choice(["nocross", "nocross", "threshold"]), th=rng.choice([0, 45, 50, 55]), clear=rng.random() < .5, given=False, dflt=False))
        out.append(dict(run="rndsec%d" % k, params={"from": F, "to": T, "ignore": [[], []]}, ops=ops))
    # the table covers every pair of texts: elements have the text of their subtree
    for r in out:
        if r["run"].startswith("rnd"):
            texts = [sorted(set(full_texts(r["params"][s], set(r["params"]["ignore"][k])))) for k, s in enumerate(("from", "to"))]
            for o in r["ops"]:
                if o["op"] == "align" and o["sim"] == "table":
                    v = ck.rng.choice([[0, 10, 30, 50, 100], list(range(101)), [30, 50], list(range(42, 60)), list(range(45, 55))])
                    o["table"] = [[a, b, ck.rng.choice(v)] for a in texts[0] for b in texts[1]]
    tr = ck.drive("textalign_driver.py", out)
    ck.judge("TextAlignTrace", tr, tcfg())


def full_texts(t, ign):
    """all texts an element may have (a superset will do)"""
    def last(k):
        j = k + 1
        while j < len(t) and t[j]["depth"] > t[k]["depth"]:
            j += 1
        return j

    def inner(k):
        s, j = t[k]["text"], k + 1
        while j < last(k):
            s += ("" if t[j]["tag"] in ign else inner(j)) + t[j]["tail"]
            j = last(j)
        return s
    return [inner(k) for k in range(len(t))]
