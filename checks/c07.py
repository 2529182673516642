from checks.gpcommon import tcfg
from checks.storecommon import *

RELS = [["equals"], ["equals", "restates"], []]


def entry(r, w, dirs, docdir, p, i, a):
    """file entry leading from the directory of the document to p, possibly by a detour"""
    if a:
        return dict(id=i, abs=True, path=list(p))
    k = 0
    while k < len(docdir) and k < len(p) - 1 and docdir[k] == p[k]:
        k += 1
    rel = [".."] * (len(docdir) - k) + list(p)[k:]
    if r.random() < 0.3:
        rel = ["."] + rel
    if docdir and r.random() < 0.3:
        rel = ["..", docdir[-1]] + rel
    return dict(id=i, abs=False, path=rel)


def run(ck):
    r = ck.rng
    hists = model(ck, ck.n(3, 4))
    plans = from_model(ck, hists, ["read", "move"], ck.n(1000, 12000), r)
    # after moving, read everything that was written
    for p in plans:
        if p["ops"][-1]["op"] == "move":
            mv = p["ops"][-1]
            docs = {}
            for o in p["ops"]:
                if o["op"] == "write":
                    docs[tuple(o["path"])] = 1
                elif o["op"] == "move":
                    f, t = o["from"], o["to"]
                    docs = {(tuple(t) + d[len(f):] if list(d[:len(f)]) == f else d): 1 for d in docs}
            for k, d in enumerate(sorted(docs)):
                for m in ("all", "sparse", "none"):
                    p["ops"].append(dict(op="read", c="r%d%s" % (k, m[0]), path=list(d), dir=list(d[:-1]), mode=m,
                                         relax=False, how=r.choice(["name", "file", "ctor"]), q_=0))
            p["ops"][-1].update(q_=1, eqs=1)
            mv.pop("eqs", None)
    for k in range(ck.n(350, 5000)):
        w = World(r)
        for _ in range(r.randint(1, 4)):
            w.bank()
        for _ in range(r.choice([0, 0, 1])):
            w.link()
        if r.random() < 0.3:
            w.sym()
        if r.random() < 0.3:
            w.add(op="symlink", path=["s"], to=r.choice([["u"], ["t"], ["t", "a"]]))
            to = w.ops[-1]["to"]
            for b in list(w.banks):
                if list(b[:len(to)]) == to:
                    w.banks[("s",) + b[len(to):]] = w.banks[b]
            if not any(list(b[:len(to)]) == to for b in w.banks):
                w.bank(path=to + ["extra.xml"])
        n = 0
        docdir = r.choice(w.dirs[:-1])
        fault = r.choice([None] * 6 + ["bank", "file", "graph", "noattr"])
        use = [r.choice(sorted(w.banks)) for _ in range(r.randint(1, 4))]
        ids = r.sample(["1", "2", "7", "b", "x y", "\u00e9"], len(use))
        a = r.random() < 0.3
        files = [entry(r, w, w.dirs, docdir, p, i, a if r.random() < 0.8 else not a) for p, i in zip(use, ids)]
        relax = r.random() < 0.4
        if relax and r.random() < 0.8:
            # the bank is no longer where the document says, but next to the document
            j = r.randrange(len(use))
            for jj in range(len(use)):
                if use[jj] == use[j]:
                    files[jj]["path"] = files[jj]["path"][:-1] + ["gone"] + [use[j][-1]] if r.random() < 0.7 else ["nowhere", use[j][-1]]
            if list(use[j][:-1]) != docdir and tuple(docdir + [use[j][-1]]) not in w.banks:
                w.add(op="link", path=docdir + [use[j][-1]], **{"from": list(use[j])})
        pairs = []
        for _ in range(r.randint(0, 8)):
            x, y = r.randrange(len(use)), r.randrange(len(use))
            pairs.append(dict(fb=ids[x], tb=ids[y], sg=r.choice(w.banks[use[x]]), tg=r.choice(w.banks[use[y]]),
                              al=w.al(), meta=r.choice(["m0", "m0", r.choice(METAS)])))
        if fault == "bank" and pairs:
            r.choice(pairs)[r.choice(["fb", "tb"])] = "nobank"
        if fault == "file":
            files[r.randrange(len(files))]["path"] = ["nosuch.xml"]
        if fault == "noattr" and pairs:
            r.choice(pairs)[r.choice(["fb", "tb", "sg", "tg"])] = "None"
        if fault == "graph" and pairs:
            r.choice(pairs)[r.choice(["sg", "tg"])] = "nograph"
        rels = list(r.choice(RELS))
        shuf = list(rels)
        r.shuffle(shuf)
        path = docdir + ["doc.pgc"]
        w.add(op="doc", path=path, doc=dict(rels=sorted(rels), meta=r.choice(["none", r.choice(METAS)]), files=files, pairs=pairs),
              rels=shuf, junk=[r.choice(["note", "pair", "corpus", "graph", "bank"]) for _ in range(r.choice([0, 0, 1, 3, 6]))], ws=r.randint(0, 1), oldfmt=int(r.random() < 0.2), fmt=r.choice(["graphml", "GraphML", "GRAPHML"]))
        w.docs[tuple(path)] = len(pairs)
        modes = ["all", "sparse", "none"]
        r.shuffle(modes)
        for m in modes:
            w.read("e" + m[0], path, mode=m, relax=relax)
        w.ops[-1]["eqs"] = 1
        if r.random() < 0.3:
            w.read("e2", path, relax=not relax)
        if r.random() < 0.3:
            # remove one of the banks and try again
            w.add(op="rm", path=list(r.choice([b for b in sorted(w.banks) if b[0] != "s"])))
            for m in modes:
                w.read("f" + m[0], path, mode=m)
            w.ops[-1]["eqs"] = 1
        plans.append(dict(run="rnd%d" % k, params=dict(bytes=r.randint(0, 1)), ops=w.ops))
    tr = ck.drive("store_driver.py", plans, procs=6)
    ck.judge("StoreTrace", tr, tcfg())
