from checks.gpcommon import *

KEYS = ["a", "b", "c", "d", "\u00e9", "i1", "i2", "t", "n", "fs", "e", "f"]
HOW = ["copy", "new", "ccopy", "deep", "pickle", "pickle2"]


def dress(r, o):
    o = dict(o, alt=r.random() < .3)
    if o["op"] in ("bcopy", "ocopy"):
        o["how"] = r.choice(HOW)
    if "src" in o:
        o["gen"] = r.random() < .3
    return o


def bag_op(r, ks, have):
    k = r.choice(ks)
    b = r.choice(have)
    o = r.choice(["bnew", "bupdate", "bupdate", "bset", "binc", "binc", "bdel", "bget", "bpop", "bclear", "bcopy", "bbin", "bbin", "bbin", "bbin", "bbad", "bfromkeys", "beq", "bmost", "bmost", "belements"])
    if o in ("bnew", "bupdate"):
        t = r.choice(["none", "iter", "iter", "map", "bag"])
        src = dict(t=t, q=[])
        if t == "iter":
            src["q"] = [r.choice(ks) for _ in range(r.randint(0, 7))]
        elif t == "map":
            src["q"] = [dict(k=k, n=r.randint(-2, 4)) for k in r.sample(ks, r.randint(0, len(ks)))]
        elif t == "bag":
            src = dict(t=t, b=r.choice(have))
        kw = [dict(k=k, n=r.randint(-1, 4)) for k in "abc" if r.random() < .3] if r.random() < .3 else []
        return dict(op=o, b=r.choice("pqrs") if o == "bnew" else b, src=src, kw=kw)
    if o in ("bset", "binc"):
        return dict(op=o, b=b, k=k, n=r.randint(-3, 4))
    if o in ("bdel", "bget", "bpop"):
        return dict(op=o, b=b, k=k)
    if o == "bclear" and r.random() < .3:
        return dict(op=o, b=b)
    if o == "bcopy":
        return dict(op=o, b=r.choice("pqrs"), x=b)
    if o == "bbad":
        return dict(op=o, b=b, f=r.choice("+-|&"))
    if o == "bfromkeys":
        return dict(op=o)
    if o == "beq":
        return dict(op=o, x=b, y=r.choice(have))
    if o == "bmost":
        return dict(op=o, b=b, n=r.choice([-1, 0, 1, 2, 3, 20]))
    if o == "belements":
        return dict(op=o, b=b)
    return dict(op="bbin", b=r.choice("pqrs"), f=r.choice("+-|&"), x=b, y=r.choice(have))


def od_op(r, ks, have, v):
    k = r.choice(ks)
    d = r.choice(have)
    o = r.choice(["onew", "oupdate", "oset", "oset", "oset", "oset", "odel", "odel", "oget", "opop", "opop", "opopitem", "osetdefault", "oclear", "ocopy", "ofromkeys", "oeq"])
    if o in ("onew", "oupdate"):
        if r.random() < .4:
            src = dict(t="od", d=r.choice(have))
        elif o == "oupdate" or r.random() < .7:
            src = dict(t="pairs", q=[dict(k=r.choice(ks), v=v + j) for j in range(r.randint(0, 6))])
        else:
            src = dict(t="none", q=[])
        kw = [dict(k=r.choice("abc"), v=v + 9)] if r.random() < .2 else []
        return dict(op=o, d=r.choice("pqr") if o == "onew" else d, src=src, kw=kw)
    if o in ("oset", "osetdefault"):
        return dict(op=o, d=d, k=k, v=v)
    if o == "odel":
        return dict(op=o, d=d, k=k)
    if o in ("oget", "opop"):
        return dict(op=o, d=d, k=k, dflt=r.random() < .5)
    if o == "opopitem" or o == "oclear" and r.random() < .4:
        return dict(op=o, d=d)
    if o == "ocopy":
        return dict(op=o, d=r.choice("pqr"), x=d)
    if o == "ofromkeys":
        return dict(op=o, d=r.choice("pqr"), q=[r.choice(ks) for _ in range(r.randint(0, 5))])
    if o == "oeq":
        return dict(op=o, x=d, y=r.choice(have))
    return dict(op="oset", d=d, k=k, v=v)


def run(ck):
    r = ck.rng
    items = '{"a", "b"}' if ck.tier == "quick" else '{"a", "b", "c"}'
    bags = ck.model("Containers", mcfg(["Algebra"], [], dict(Items=items, Depth=3, Kind='"bag"')), "Containers, counters", workers=1, tag="PLAN")
    dicts = ck.model("Containers", mcfg(["NoTwice", "Order"], [], dict(Items='{"a", "b", "c"}', Depth=ck.n(3, 4), Kind='"dict"')), "Containers, ordered dictionaries", workers=1, tag="PLAN")
    plans = []
    for tag, hs, new in (("b", bags, "bnew"), ("o", dicts, "onew")):
        hs = hs if len(hs) < ck.n(1200, 20000) else r.sample(hs, ck.n(1200, 20000))
        first = [dict({"op": new, "bnew" == new and "b" or "d": n, "src": dict(t="none", q=[]), "kw": []}) for n in "pq"]
        for k, h in enumerate(hs):
            plans.append(dict(run="%s%d" % (tag, k), params={}, ops=[dress(r, o) for o in first + h]))
    for k in range(ck.n(500, 10000)):
        ks = r.sample(KEYS, r.randint(2, 8))
        kind = r.random() < .5
        new = "bnew" if kind else "onew"
        have, ops = [], []
        for n in r.sample("pqr", r.randint(1, 3)):
            ops.append({"op": new, "b" if kind else "d": n, "src": dict(t="none", q=[]), "kw": []})
            have.append(n)
        for j in range(r.randint(5, 40)):
            o = bag_op(r, ks, sorted(have)) if kind else od_op(r, ks, sorted(have), 100 * j)
            if o["op"][1:] in ("new", "copy", "bin", "fromkeys") and o.get("b", o.get("d")) and o.get("b", o.get("d")) not in have:
                have.append(o.get("b", o.get("d")))
            ops.append(o)
        plans.append(dict(run="r%d" % k, params={}, ops=[dress(r, o) for o in ops]))
    # containers of over a hundred keys
    for k in range(ck.n(6, 60)):
        ks = ["k%d" % j for j in range(r.choice([90, 150]))]
        if k % 2:
            ops = [dict(op="bnew", b="p", src=dict(t="map", q=[dict(k=x, n=r.randint(-2, 4)) for x in ks]), kw=[]),
                   dict(op="bnew", b="q", src=dict(t="iter", q=[r.choice(ks) for _ in range(200)]), kw=[])]
            ops += [bag_op(r, ks, ["p", "q"]) for _ in range(12)]
        else:
            q = [dict(k=x, v=j + 1) for j, x in enumerate(r.sample(ks, len(ks)))]
            ops = [dict(op="onew", d=d, src=dict(t="pairs", q=q), kw=[]) for d in "pq"]
            ops += [dict(op="oset", d="p", k=r.choice(ks[:5]), v=1000), dict(op="oset", d="p", k=q[0]["k"], v=1001)]
            ops += [od_op(r, ks, ["p", "q"], 2000 + 10 * j) for j in range(12)]
        plans.append(dict(run="L%d" % k, params={}, ops=[dress(r, o) for o in ops]))
    tr = ck.drive("containers_driver.py", plans, procs=6)
    ck.judge("ContainersTrace", tr, tcfg())
