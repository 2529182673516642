from checks.gpcommon import tcfg

WORDS = ["een", "kat", "&", "<b>", "\u00e9\u00e9n", "\"q\"", "'", "]]>", "0", "\u4f60", "a;b", "&amp;", "x-y"]
SEPS = [" ", " ", "  ", "\n", "\t"]


def mcfg(items, graphs):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT StreamEqualsDenotation BalancedContext SparseIsRestriction DataAnywhere\n"
            "ACTION_CONSTRAINT Emit\nCONSTANTS\n MaxItems = %d\n NGraphs = %d\n" % (items, graphs))


def run(ck):
    r = ck.rng
    ds = ck.model("GraphML", mcfg(ck.n(1, 2), 2), "documents of 2 graphs", tag="PLAN", workers=8)
    ds += ck.model("GraphML", mcfg(ck.n(3, 4), 1), "documents of 1 graph", tag="PLAN", workers=8, timeout=3000, heap="8g")
    ck.cov["model_documents"] = len(ds)
    lim = ck.n(2000, 30000)
    if len(ds) > lim:
        ds = r.sample(ds, lim)
    STY = [dict(), dict(ws=False), dict(cdata=1), dict(comments=1), dict(desc=1), dict(refs=1), dict(cdata=1, comments=1, desc=1, refs=1)]
    HOW = ["file", "fobj", "dict", "string", "chunks", "bank"]
    plans = [dict(run="mod%d" % k, params={}, ops=[dict(op="parse", doc=d["doc"], sparse=d["sparse"], wanted=sorted(d["wanted"]),
                                                       how=HOW[k % 6], style=r.choice(STY), seed=k)]) for k, d in enumerate(ds)]

    def val(kind=""):
        w = [r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 4]))]
        if kind == "node":
            return dict(w=w, sep=" ", pad="")
        if kind == "graph":
            return dict(w=w if r.random() < 0.9 else [], sep=r.choice(SEPS), pad=r.choice(["", "", " ", "\n"]))
        return dict(w=w if r.random() < 0.9 else [], sep=r.choice(SEPS), pad=r.choice(["", "", " "]))
    for k in range(ck.n(500, 6000)):
        names = ["label", "tokens", "root", "cat", "pos", "name", "l\u00e9"]
        keys, used = [], set()
        for nm in names:
            for f in r.choice([["all"], ["graph", "node", "edge"], ["node"], ["all", "node"], ["graph"], ["all", "edge"]]) \
                    if nm not in ("label", "tokens") else r.choice([["all"], ["graph", "node", "edge"], ["all", "node"], ["graph", "node"]]):
                i = r.choice([nm, "k%d" % len(keys), "\u00e9" + nm, "k%d" % r.randrange(4)])
                if any(x["id"] == i and x["for"] == f for x in keys):
                    continue
                hd = r.random() < 0.35
                # node tokens are split at single blanks: general token defaults too
                df = val("node") if nm == "tokens" else val()
                if nm == "label" and not df["w"]:
                    df = val("node")
                keys.append({"id": i, "for": f, "name": nm, "hasdef": hd, "def": df})
        r.shuffle(keys)

        def data(comp, must=()):
            q = []
            avail = [x for x in keys if x["for"] in (comp, "all")]
            for x in r.sample(avail, r.randint(0, len(avail))):
                q.append(x)
            for m in must:
                have = [x for x in avail if x["name"] == m]
                if have and r.random() < 0.985 and not any(x["name"] == m for x in q):
                    q.append(r.choice(have))
            r.shuffle(q)
            out = []
            for x in q:
                # which name does the id stand for here?
                own = [y for y in keys if y["id"] == x["id"] and y["for"] == comp] or [y for y in keys if y["id"] == x["id"] and y["for"] == "all"]
                nm = own[0]["name"]
                v = val("node" if nm == "tokens" and comp == "node" else "graph" if nm == "tokens" and comp == "graph" else
                        "node" if nm == "label" and r.random() < 0.98 else "")
                if nm == "tokens" and comp == "node" and not v["w"]:
                    v["w"] = ["x"]
                out.append(dict(t="data", key=x["id"] if r.random() < 0.998 else "nokey", v=v))
            return out
        graphs = []
        for gi in range(r.choice([0, 1, 1, 2, 3, 6])):
            items, ns = [], []
            pool = ["n%d" % i for i in range(6)] + ["\u00e9", "0", "<", "a b"]
            for _ in range(r.randint(0, 8)):
                n = r.choice(pool)
                if r.random() < 0.55 or not ns:
                    if n not in ns:
                        ns.append(n)
                        items.append(dict(t="node", id=n, data=data("node", ("label", "tokens"))))
                else:
                    u, v = r.choice(ns), r.choice(ns)
                    if not any(i["t"] == "edge" and (i["u"], i["v"]) == (u, v) for i in items):
                        items.append(dict(t="edge", u=u, v=v, data=data("edge")))
            for d in data("graph", ("tokens",)):
                items.insert(r.choice([0, r.randint(0, len(items))]), d)
            graphs.append(dict(id=["g%d" % gi, "\u00e9%d" % gi, "%d" % gi][r.randint(0, 2)], items=items))
        d = dict(keys=keys, graphs=graphs)
        ids = [g["id"] for g in graphs]
        enc = "utf-8"
        blob = str(d)
        if r.random() < 0.25 and all(ord(c) < 256 for c in blob):
            enc = "iso-8859-1"
        st = dict(r.choice(STY), enc=enc)
        for _ in range(2):
            sparse = r.random() < 0.5
            w = [i for i in ids if r.random() < 0.5] + (["nosuch"] if r.random() < 0.1 else []) if sparse else []
            ops = [dict(op="parse", doc=d, sparse=sparse, wanted=w, how=r.choice(HOW if enc == "utf-8" else HOW[:3] + ["bank"]), style=st, seed=r.randint(0, 999))]
            plans.append(dict(run="rnd%d-%d" % (k, _), params={}, ops=ops))
    tr = ck.drive("gml_driver.py", plans, procs=6)
    ck.judge("GraphMLTrace", tr, tcfg())
