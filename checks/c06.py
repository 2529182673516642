from checks.gpcommon import tcfg
from checks.storecommon import *


def run(ck):
    r = ck.rng
    hists = model(ck, ck.n(3, 4))
    plans = from_model(ck, hists, ["write", "read"], ck.n(1500, 15000), r)
    for k in range(ck.n(250, 3000)):
        w = World(r)
        for _ in range(r.randint(1, 4)):
            w.bank()
        for _ in range(r.choice([0, 0, 1, 2])):
            w.link()
        for _ in range(r.choice([0, 0, 1, 2])):
            w.sym()
        rels = w.rels()
        w.mk("c", rels=rels)
        w.mk("d", rels=rels)
        for _ in range(r.randint(1, 4)):
            o = r.choice(["write", "write", "iadd", "align", "pmeta", "cmeta", "annot"])
            c = r.choice("cd")
            if o == "write":
                p = w.write(c)
                for m in r.sample(["all", "sparse", "none"], r.randint(1, 2)):
                    e = r.choice("efg")
                    w.read(e, p, mode=m)["eqs"] = 1
                if r.random() < 0.4:
                    # write what was read
                    w.cors[e] = w.cors[c]
                    p = w.write(e)
                    w.read(r.choice("efg"), p)["eqs"] = 1
            elif o == "iadd":
                d = r.choice("cd")
                w.add(op="iadd", c=c, d=d)
                w.cors[c] += w.cors[d]
            elif o == "cmeta":
                w.add(op="cmeta", c=c, tok=r.choice(["none"] + METAS))
            elif o == "annot":
                w.add(op="annot", c=c, who=r.choice(["Erwin", "Zo\u00eb", "E. K. & <co>", ""]), app=bool(r.randint(0, 2)))
            elif w.cors[c]:
                i = r.randint(1, w.cors[c])
                if o == "align":
                    w.add(op="align", c=c, i=i, s=r.choice(["n1", "n2", "\u00e9"]), t=r.choice(["n1", "n3"]), r="equals")
                else:
                    w.add(op="pmeta", c=c, i=i, tok=r.choice(METAS))
        p = w.write("c")
        w.read("z", p)["eqs"] = 1
        plans.append(dict(run="rnd%d" % k, params=dict(bytes=r.randint(0, 1)), ops=w.ops))
    # every kind of meta-data, written and read back
    for k, m in enumerate(METAS):
        w = World(r)
        w.bank(["t", "b"], ["g1"])
        w.add(op="mk", c="c", cor=dict(rels=["equals"], meta=m, pairs=[pair(["t", "b"], ["t", "b"], "g1", "g1", meta=m)]))
        w.cors["c"] = 1
        for pp in (0, 1):
            p = w.write("c", ["t", "o%d.pgc" % pp])
            w.ops[-1]["pprint"] = pp
            w.read("e%d" % pp, p, mode="none")["eqs"] = 1
        plans.append(dict(run="meta%d" % k, params={}, ops=w.ops))
    tr = ck.drive("store_driver.py", plans, procs=6)
    ck.judge("StoreTrace", tr, tcfg())
