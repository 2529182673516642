from checks.gpcommon import tcfg

NODES = ["a", "b", "c", "int0", "int1", "empty", "pair", "uni", "zero"]


def mcfg(kind, nodes, depth):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANT WellFormed SameSets YieldLaws TreeYield\n"
            "PROPERTY KeepsOrder Others CopySame\nACTION_CONSTRAINT Emit\n"
            "CONSTANTS\n NodeNames = {%s}\n MaxDepth = %d\n Kind = \"%s\"\n"
            % (", ".join('"%s"' % n for n in nodes), depth, kind))


def plans_from(hs, prefix, params=None):
    plans = []
    for k, h in enumerate(hs):
        ops = [dict(o, q_=0) for o in h]
        ops[-1]["q_"] = 1
        plans.append(dict(run="%s%d" % (prefix, k), params=params or {}, ops=ops))
    return plans


def rat(r):
    return [[k, r.choice(["1", "2"])] for k in r.sample(["w", "l", "x"], r.choice([0, 0, 1, 2]))]


def run(ck):
    r = ck.rng
    hs = ck.model("OGraph", mcfg("o", ["a", "b"], 3), "ordered graphs, 2 nodes", tag="PLAN", workers=8)
    if not ck.quick:
        hs += ck.model("OGraph", mcfg("o", ["a", "b", "int0"], 3), "ordered graphs, 3 nodes", tag="PLAN", workers=8)
    ck.cov["model_behaviours"] = len(hs)
    lim = ck.n(3000, 40000)
    if len(hs) > lim:
        hs = r.sample(hs, lim)
    plans = plans_from(hs, "mod")
    for k in range(ck.n(250, 3000)):
        kind = "o" if r.random() < 0.65 else "d"
        nodes = r.sample(NODES, r.randint(2, 6))
        ops = [dict(op="new", g="g", kind=kind, id="i1", root="None" if kind == "o" else r.choice(nodes))]
        if kind == "d":         # edges are between known nodes
            ops += [dict(op="addn", g="g", n=x, at=rat(r), label="np", tk=[], how="dict") for x in nodes if r.random() < .8]
        names, n, shares = ["g"], 0, set()
        have = {"g": set()}
        for _ in range(r.randint(5, 40)):
            g = r.choice(names)
            kinds = "addn addn addn adde adde adde adde addes rmn rme rmns rmes setn sete setg copy path badattr clear".split()
            if kind == "o":
                kinds += ["addns", "sub", "rev", "from", "frome"]
            else:
                kinds += ["settk", "setgt"]
            o = r.choice(kinds)
            op = dict(op=o, g=g)
            if g in shares and o not in ("rmn", "rmns", "rme", "rmes", "copy"):
                continue
            rn = lambda: r.choice(nodes)
            if kind == "d":
                op.update(label=r.choice(["np", "vp", "hd"]))
            if o == "addn":
                op.update(n=rn(), at=rat(r), how=r.choice(["dict", "kw"]))
                if kind == "d":
                    op["tk"] = r.choice([[], ["een"], ["de", "kat"], [","], [",", "."]])
                    op["at"] = [a for a in op["at"]]
            elif o == "addns":
                op.update(ns=[rn() for _ in range(r.randint(0, 4))], at=rat(r))
            elif o == "path":
                if kind == "d":
                    continue
                op.update(ns=[rn() for _ in range(r.randint(0, 4))], at=rat(r))
            elif o == "adde":
                op.update(u=rn(), v=rn(), at=rat(r), how=r.choice(["dict", "kw"]))
            elif o == "addes":
                op.update(es=[[rn(), rn(), rat(r)] for _ in range(r.randint(0, 4))], at=rat(r), how=r.choice(["dict", "kw"]))
            elif o in ("rmn",):
                if r.random() < 0.5:
                    continue
                op.update(n=rn())
            elif o == "rmns":
                if r.random() < 0.6:
                    continue
                op.update(ns=[rn() for _ in range(r.randint(0, 2))])
            elif o == "rme":
                op.update(u=rn(), v=rn())
            elif o == "rmes":
                op.update(es=[[rn(), rn(), []] for _ in range(r.randint(0, 2))])
            elif o == "clear":
                if r.random() < 0.8:
                    continue
            elif o in ("setn", "settk", "sete"):
                continue
            elif o == "setg":
                op.update(k="lang", v=r.choice(["nl", "en"]))
            elif o == "setgt":
                op.update(tk=[r.choice(["de", "kat", "\u00e9\u00e9n", "."]) for _ in range(r.randint(0, 3))],
                          pad=r.choice(["", " ", "\n"]), sep=r.choice([" ", "  ", "\t"]))
            elif o == "badattr":
                if r.random() < 0.7:
                    continue
                op.update(what="edges")
            elif o in ("copy", "rev", "from", "sub", "frome"):
                if len(names) > 3:
                    continue
                n += 1
                op["h"] = "h%d" % n
                if o == "sub":
                    op["ns"] = [rn() for _ in range(r.randint(0, 5))]
                    shares.update([g, op["h"]])
                if o == "frome":
                    op["es"] = [[rn(), rn(), rat(r)] for _ in range(r.randint(0, 4))]
                names.append(op["h"])
            op["q_"] = int(r.random() < 0.4)
            ops.append(op)
        ops.append(dict(op="look", g="g", q_=1))
        plans.append(dict(run="rnd%d" % k, params={}, ops=ops))
    # attributes of nodes that were added together, copied, converted ... stay apart
    for k in range(ck.n(60, 500)):
        ops = [dict(op="new", g="g", kind="o", id="i", root="None"),
               dict(op="addns", g="g", ns=["a", "b", "c"], at=rat(r)),
               dict(op="addes", g="g", es=[["a", "b", rat(r)], ["a", "c", rat(r)], ["c", "b", []], ["b", "b", []]], at=rat(r)),
               dict(op=r.choice(["copy", "rev", "from"]), g="g", h="h")]
        rv = ops[-1]["op"] == "rev"
        for _ in range(r.randint(2, 6)):
            x = r.choice("gh")
            if r.random() < 0.5:
                ops.append(dict(op="setn", g=x, n=r.choice("abc"), k=r.choice("wlz"), v="9"))
            else:
                u, v = r.choice([("a", "b"), ("a", "c"), ("c", "b"), ("b", "b")])
                if rv and x == "h":
                    u, v = v, u
                ops.append(dict(op="sete", g=x, u=u, v=v, k=r.choice("wlz"), w="8"))
            if r.random() < 0.3:
                ops.append(dict(op="setg", g=x, k="lang", v=r.choice(["nl", "en"])))
        plans.append(dict(run="own%d" % k, params={}, ops=ops))
    tr = ck.drive("graph_driver.py", plans, procs=6)
    ck.judge("OGraphTrace", tr, tcfg())
