from checks.gpcommon import tcfg
from checks.storecommon import *


def run(ck):
    r = ck.rng
    hists = model(ck, ck.n(3, 4))
    plans = from_model(ck, hists, ["purge", "iadd", "write"], ck.n(1000, 12000), r)
    for k in range(ck.n(400, 5000)):
        w = World(r)
        for _ in range(r.randint(1, 3)):
            w.bank()
        for _ in range(r.choice([0, 1, 2])):
            w.link()
        for _ in range(r.choice([0, 0, 1, 2])):
            w.sym()
        rels = w.rels()
        for c in "cd":
            w.mk(c, np=r.randint(1, 4), rels=rels)
        files = {}
        n = 0
        for _ in range(r.randint(3, 10)):
            c = r.choice(sorted(w.cors))
            o = r.choice(["iadd", "iadd", "slice", "dcopy", "purge", "purge", "purge1", "write", "reread", "rm"])
            if o == "iadd":
                d = r.choice(sorted(w.cors))
                if w.cors[c] + w.cors[d] > 12:
                    continue
                w.add(op="iadd", c=c, d=d)
                w.cors[c] += w.cors[d]
            elif o == "dcopy":
                n += 1
                w.add(op="dcopy", c="s%d" % n, d=c, eqs=1)
                w.cors["s%d" % n] = w.cors[c]
            elif o == "slice":
                i = r.randint(0, w.cors[c]); j = r.randint(i, w.cors[c])
                n += 1
                e = "s%d" % n
                w.add(op="slice", c=e, d=c, i=i, j=j)
                w.cors[e] = j - i
            elif o == "purge":
                w.add(op="purge", c=c, eqs=1)
            elif o == "purge1" and w.cors[c]:
                w.add(op="purge", c=c, i=r.randint(1, w.cors[c]), eqs=1)
            elif o == "write":
                w.write(c)
            elif o == "reread":
                p = w.write(c)
                n += 1
                e = "s%d" % n
                # reading sparsely or fully may fail for graphs that are not in the (changed) files
                w.read(e, p, mode="none", relax=False)
                w.cors[e] = w.cors[c]
            elif o == "rm" and r.random() < 0.3:
                w.add(op="rm", path=list(r.choice(sorted(w.banks))))
                w.banks.pop(tuple(w.ops[-1]["path"]))
                if not w.banks:
                    break
        if r.random() < 0.6:
            # graphbanks may keep something of earlier writes
            for x in r.sample(sorted(w.cors), 2):
                w.write(x)
            w.add(op="iadd", c="c", d="d")
            w.cors["c"] += w.cors["d"]
            w.write("c")
        w.add(op="purge", c="c", eqs=1)
        w.write("c")
        plans.append(dict(run="rnd%d" % k, params=dict(bytes=r.randint(0, 1)), ops=w.ops))
    tr = ck.drive("store_driver.py", plans, procs=6)
    ck.judge("StoreTrace", tr, tcfg())
