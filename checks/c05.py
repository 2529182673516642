from checks.gpcommon import tcfg
from checks.c04 import NO
WHO = ["Erwin", "Zo\u00eb", "E. K. & <co>", "", "a + b"]
METAS = ["m%d" % i for i in range(17)]


def run(ck):
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANT EqEquivalence\n"
           "PROPERTY Others Refused Independent CopyFresh Annotated\n"
           "CONSTANTS\n PairNames = {\"p\", \"q\"}\n MaxN = 2\n Hi = 1\n MaxDepth = %d\n Family = \"deep\"\nACTION_CONSTRAINT Emit\n")
    hs = ck.model("Corpus", cfg % ck.n(3, 4), "Corpus contents and copies", tag="PLAN", workers=8)
    ck.cov["transitions_deep"] = len(hs)
    lim = ck.n(4000, 40000)
    if len(hs) > lim:
        hs = ck.rng.sample(hs, lim)
    plans = []
    for k, h in enumerate(hs):
        same = k % 2
        ops = [dict(op="elem", c="", m="n1", tok="m1"),
               dict(op="pair", c="", p="p", key="k1", meta="m0"), dict(op="pair", c="", p="q", key="k1" if same else "k2", meta="m0"),
               dict(op="new", c="c", q=h["c"], rels=["equals"], meta="n1"),
               dict(op="new", c="d", q=h["d"], rels=["equals"], meta="n1"),
               dict(op="new", c="x", q=h["d"], rels=["equals", "restates"], meta="n1")] + h["ops"]
        ops = [dict(o, q_=0) for o in ops[:-1]] + [dict(ops[-1], eqs=1)]
        plans.append(dict(run="deep%d" % k, params=dict(deep=1), ops=ops))
    r = ck.rng
    for k in range(ck.n(200, 2500)):
        np = r.randint(2, 5)
        pairs = ["p%d" % i for i in range(np)]
        ops = [dict(op="pair", c="", p=p, key="k%d%s" % (r.randint(1, 2), r.choice(["", "", "7"])),
                    meta=r.choice(["m0", "m0", r.choice(METAS)])) for p in pairs]
        elems = ["e1", "e2", "e3"]
        ops += [dict(op="elem", c="", m=m, tok=r.choice(METAS)) for m in elems]
        R = [["equals"], ["equals", "restates"]]
        cors = ["c", "d"]
        q0 = [r.choice(pairs) for _ in range(r.randint(0, 4))]
        for c in cors:
            q = list(q0) if r.random() < 0.7 else [r.choice(pairs) for _ in range(len(q0))]
            ops.append(dict(op="new", c=c, q=q, rels=r.choice(R + R[:1] * 3), meta=r.choice(["none"] + elems)))
        shadow = {}
        nm = {c: list(q0) for c in cors}
        edit = r.random() < .4          # slices share the list of relations: not with edits of it in place
        for _ in range(r.randint(6, 25)):
            c = r.choice(cors)
            o = r.choice("deepcopy align align unalign pairmeta editmeta setmeta annot annot setrels append delitem reverse getslice extend".split())
            op = dict(op=o, c=c)
            if o == "deepcopy":
                op["e"] = "g%d" % len(cors)
                if len(cors) > 4:
                    continue
                cors.append(op["e"])
            elif o == "getslice":
                if len(cors) > 4 or edit:
                    continue
                op.update(e="g%d" % len(cors), i=NO, j=NO, k=NO)
                cors.append(op["e"])
            elif o in ("align", "unalign", "pairmeta"):
                op["p"] = r.choice(pairs)
                if o == "pairmeta":
                    op.update(meta=r.choice(METAS), inplace=r.randint(0, 1))
                else:
                    op.update(s=r.choice("ab"), t=r.choice("ab"))
                    if o == "align":
                        op["r"] = r.choice(["equals", "restates"])
            elif o == "editmeta":
                op.update(m=r.choice(elems), tok=r.choice(METAS))
            elif o == "setmeta":
                op["m"] = r.choice(["none"] + elems)
            elif o == "annot":
                op.update(m="x%d" % len(ops), who=r.choice(WHO), app=bool(r.randint(0, 2)))
            elif o == "setrels":
                op["rels"] = r.choice(R)
                if edit:
                    op["how"] = "edit"
            elif o == "append":
                op["p"] = r.choice(pairs)
            elif o == "delitem":
                op["i"] = r.choice([0, -1])
            elif o == "extend":
                op.update(d=r.choice(cors), q=[])
            if r.random() < 0.6:
                op["eqs"] = 1
            ops.append(op)
        plans.append(dict(run="rnd%d" % k, params=dict(deep=1), ops=ops))
    # corpora that differ in exactly one respect
    ops = [dict(op="elem", c="", m="e%d" % i, tok=m) for i, m in enumerate(METAS)]
    ops += [dict(op="pair", c="", p="p", key="k1", meta="m0")]
    ops += [dict(op="new", c="c%d" % i, q=["p"], rels=["equals"], meta="e%d" % i) for i in range(len(METAS))]
    ops += [dict(op="new", c="z", q=["p"], rels=["equals"], meta="none"), dict(op="new", c="z2", q=["p"], rels=["equals"], meta="none", eqs=1)]
    plans.append(dict(run="metas", params=dict(deep=1), ops=ops))
    ops = [dict(op="pair", c="", p="p%d" % i, key="k1", meta=m) for i, m in enumerate(METAS)]
    ops += [dict(op="new", c="c%d" % i, q=["p%d" % i], rels=["equals"], meta="none") for i in range(len(METAS))]
    ops[-1]["eqs"] = 1
    plans.append(dict(run="pairmetas", params=dict(deep=1), ops=ops))
    tr = ck.drive("corpus_driver.py", plans, procs=6)
    ck.judge("CorpusTrace", tr, tcfg())
