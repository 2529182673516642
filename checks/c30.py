from checks.gpcommon import tcfg
from checks.storecommon import *

SCRIPTS = ["split", "join", "cp", "chdir", "zip"]


def script_model(ck, depth, lim):
    cfg = ("SPECIFICATION SpecS\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANT PathLaws\n"
           "PROPERTY NoLoss CopySame OthersKept ChdirBack Unpacked\nACTION_CONSTRAINT Emit\n"
           "CONSTANTS\n Tops = {}\n MaxDepth = %d\n Scenario = \"scripts\"\n" % depth)
    hists = [h for h in ck.model("Store", cfg, "scripts on corpora, depth %d" % depth, tag="PLAN", workers=8) if len(h) > 1]
    ck.cov["model_behaviours"] = len(hists)
    hists.sort(key=repr)
    if len(hists) > lim:
        hists = ck.rng.sample(hists, lim)
    plans = []
    for k, h in enumerate(hists):
        r = ck.rng
        ops = [dict(o, q_=0) for o in setup()]
        ops += [dict(op="write", c="c", path=["t", "pg", "o1.pgc"], abs=False, how="name", dir=["t", "pg"], q_=0),
                dict(op="write", c="d", path=["u", "o2.v1.pgc"], abs=True, how="name", dir=["u"], q_=0)]
        for o in h[1:]:
            o = dict(o, q_=0)
            vary(r, o)
            ops.append(o)
        plans.append(dict(run="mod%d" % k, params={}, ops=mkdirs(ops)))
    return plans


def vary(r, o):
    """the many ways to ask for the same thing"""
    if o["op"] == "split":
        o.update(long=r.randint(0, 1), pprint=r.randint(0, 1), V=r.randint(0, 1))
    elif o["op"] == "join":
        o.update(pprint=r.randint(0, 1), V=r.randint(0, 1))
        o["paths"] = sorted(o["paths"], key="/".join)
        o["args"] = r.sample(o["paths"], len(o["paths"]))
    elif o["op"] == "cp":
        o.update(long=r.randint(0, 1), slash=int(o["isdir"] and r.random() < .3))
    elif o["op"] == "chdir":
        o.update(first=r.randint(0, 1), V=r.randint(0, 1), dflt=int(o["pa"] == "" and o["pb"] == ""))
    elif o["op"] == "zip":
        o.update(args=r.sample(o["paths"], len(o["paths"])))
    if o["op"] not in ("join",) and r.random() < .3:
        o["cwd"] = r.choice([["t"], ["u"], ["cw"], []])


def mkdirs(ops):
    """make sure working directories exist"""
    out, seen = [], set()
    for o in ops:
        c = tuple(o.get("cwd") or ())
        if c and c not in seen:
            seen.add(c)
            out.append(dict(op="bank", path=list(c) + ["here%d.xml" % len(seen)], ino="here%d" % len(seen), gs=["g1"], q_=0))
        out.append(o)
    return out


def random_plan(ck, r, k):
    w = World(r, dirs=r.choice([[["t"], ["t", "a"], ["t", "a", "b"], ["u"], ["u", "a"]], [["t"], ["t", u"Jos\u00e9"], ["t", u"Jos\u00e9", "b"], ["u"], ["u", u"\u00e9\u4e2d"]]]))
    for _ in range(r.randint(1, 4)):
        w.bank()
    if r.random() < .3:        # the same name in two directories
        f = list(r.choice(sorted(w.banks)))
        d = r.choice(w.dirs) + [f[-1]]
        if tuple(d) not in w.banks:
            w.n += 1
            w.bank(path=d)
    for _ in range(r.choice([0, 0, 1])):
        w.link()
    rels = w.rels()
    docs, rel = {}, {}
    for c in "cd":
        rr = rels if r.random() < .85 else w.rels()
        w.mk(c, np=r.choice([0, 1, 2, 3, 5, 6, 7, 12]), rels=rr)
        name = r.choice(["o%d.pgc" % w.n, "corpus.v%d.pgc" % w.n, "noext%d" % w.n, "with space %d.pgc" % w.n, "b[%d].pgc" % w.n])
        p = w.write(c, r.choice(w.dirs) + [name])
        w.ops[-1]["how"] = "name"
        docs[tuple(p)] = w.cors[c]
        rel[tuple(p)] = rr[0]
    w.add(op="junk", path=["t", "junk.pgc"])
    for o in w.ops:
        o["q_"] = 0
    n0 = len(w.ops)
    for _ in range(r.randint(1, 5)):
        x = r.choice(SCRIPTS)
        ps = [list(p) for p in sorted(docs)]
        p = r.choice(ps)
        if x == "split":
            o = dict(op="split", path=p, parts=r.randint(1, 8), size=r.choice([0, 0, 0, 1, 2, 3, 5]))
            w.add(**o)
        elif x == "join":
            q = r.sample(ps, r.randint(1, min(3, len(ps))))
            if r.random() < .1:
                q.append(q[0])
            w.add(op="join", paths=q, to=r.choice(w.dirs + [["w"]]) + ["j%d.pgc" % len(w.ops)])
            if all(rel[tuple(z)] == rel[tuple(q[0])] for z in q):
                rel[tuple(w.ops[-1]["to"])] = rel[tuple(q[0])]
                docs[tuple(w.ops[-1]["to"])] = sum(docs[tuple(z)] for z in q)
        elif x == "cp":
            isdir = r.random() < .5
            q = r.sample(ps, r.randint(1, min(3, len(ps)))) if isdir or r.random() < .1 else [p]
            if r.random() < .1:
                q.insert(r.randint(0, len(q)), ["nowhere", "x.pgc"])
            if r.random() < .1:
                q.insert(r.randint(0, len(q)), ["t", "junk.pgc"])
            t = r.choice(w.dirs + [["w"]]) if isdir else \
                (r.choice(ps) if r.random() < .4 else r.choice(w.dirs) + ["copy%d.pgc" % len(w.ops)])
            w.add(op="cp", paths=q, target=t, isdir=isdir, over=r.random() < .5)
        elif x == "chdir":
            q = r.sample(ps, r.randint(1, min(3, len(ps))))
            a, b = r.choice([("../", "../../"), ("..", "."), ("%ROOT%/t", "%ROOT%/u"), ("%ROOT%/", ""), ("../", "./../"), ("", ""), ("a/", "b/"),
                             ("../a", "../c"), ("%ROOT%/t/a", "../../x"), ("b", "bb"), ("a b", "x"), ("b", "d d/"), (u"Jos\u00e9", "x"), ("../", u"../Zo\u00eb/../"), (u"Jos\u00e9/b", u"\u4e2d")])
            w.add(op="chdir", paths=q, pa=a, pb=b, dry=r.random() < .25)
        else:
            q = r.sample(ps, r.randint(1, min(3, len(ps))))
            w.add(op="zip", paths=q, to=["x", "z%d" % len(w.ops)], arch=r.choice(["pack", "pack.v1", "a b"]))
            if r.random() < .7:
                z = w.ops[-1]
                w.add(op="tryread", z=len(w.ops) - 1, p=z["paths"][0])
    out = w.ops[:n0]
    for o in w.ops[n0:]:
        if o["op"] == "tryread":
            z = w.ops[o["z"]]
            out.append(dict(op="read", c="e", path=z["to"] + [z["arch"], o["p"][-1]], mode="all", relax=True, how="name",
                            dir=z["to"] + [z["arch"]], maybe=1))
            continue
        vary(r, o)
        o["q_"] = 0
        out.append(o)
    return dict(run="rnd%d" % k, params=dict(bytes=1), ops=mkdirs(out))


def splitjoin(ck, r, k, n, parts, size, name):
    """a corpus of n pairs in parts, the parts joined by a file name pattern, read back and compared"""
    w = World(r, dirs=[["t"], ["t", "a"]])
    w.bank(["t", "gb", "b1.xml"], ["g1", "g2"])
    w.bank(["u", "b2.xml"], ["g1", "g2"])
    w.mk("c", np=n)
    w.write("c", ["t", "a", name])
    w.ops[-1]["how"] = "name"
    w.add(op="split", path=["t", "a", name], parts=parts, size=size, q_=0)
    vary(r, w.ops[-1])
    w.add(op="joinparts", of=["t", "a", name], to=r.choice([["t", "a", "j.xml"], ["w", "j.pgc"]]), V=r.randint(0, 1), pprint=r.randint(0, 1), q_=0)
    w.read("e", w.ops[-1]["to"], mode="sparse", relax=False, how="name")["eqs"] = 1
    return dict(run="sj%d" % k, params={}, ops=mkdirs(w.ops))


def run(ck):
    r = ck.rng
    plans = script_model(ck, ck.n(2, 3), ck.n(900, 12000))
    for k in range(ck.n(300, 4000)):
        plans.append(random_plan(ck, r, k))
    k = 0
    for n in range(1, ck.n(9, 25)):
        for parts, size in [(p, 0) for p in range(1, ck.n(7, 12))] + [(2, s) for s in range(1, 4)]:
            if ck.tier == "quick" and r.random() < .4 and not n % parts == 0:
                continue
            plans.append(splitjoin(ck, r, k, n, parts, size, r.choice(["o.pgc", "c.v1.pgc", "noext", "a b.pgc", "p[1].pgc"])))
            k += 1
    # user-defined meta-data may use any tag and any text, also those of the graphbanks
    for m in range(1, 16):
        p = ["t", "a", "o.pgc"]
        ops = [dict(op="bank", path=["t", "gb", "b1.xml"], ino="x1", gs=["g1"], q_=0),
               dict(op="mk", c="c", cor=dict(rels=["equals"], meta="m%d" % m, pairs=[
                   pair(["t", "gb", "b1.xml"], ["t", "gb", "b1.xml"], "g1", "g1", meta="m%d" % m, k="stub")]), q_=0),
               dict(op="write", c="c", path=p, abs=False, how="name", dir=p[:-1], q_=0)]
        for a, b in [("../", "../../"), ("", "x/"), ("", "")]:
            ops.append(dict(op="chdir", paths=[p], pa=a, pb=b, dry=False, first=0, V=0, dflt=0, q_=0))
        plans.append(dict(run="meta%d" % m, params={}, ops=ops))
    # the names of parts sort in order whatever the number of digits of a position
    for n, parts, size in ck.n([(10100, 0, 3366)], [(9999, 3, 0), (10000, 2, 0), (10100, 0, 3366), (12000, 0, 1999), (30000, 7, 0)]):
        plans.append(dict(run="big%d" % n, params={}, ops=[dict(op="bigsplit", n=n, parts=parts, size=size)]))
    tr = ck.drive("scripts_driver.py", plans, procs=6)
    ck.judge("StoreTrace", tr, tcfg())
