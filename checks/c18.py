from checks.gpcommon import *
from checks.c17 import rnd_tree
import os.path


def moved(fn, d):
    """expected new name: the last part of a path in either notation, in the new directory"""
    res = []
    for p in fn:
        if len(p) > 1 and p[0].isupper() and p[1] == ":":
            p = p[2:]
        res.append(os.path.join(d, p.replace("\\", "/").split("/")[-1]))
    return res


def run(ck):
    c = dict(FTree="T1", TTree="T2", Files='{"a.ptc"}', MaxLen=ck.n(5, 7))
    cfg = mcfg(["Homogeneous", "ConvertKeeps", "InjectExtract", "Mirrored"], ["WriteRead"], c).replace("Tree = ", "Tree <- ")
    plans = ck.model("PtcDoc", cfg, "PtcDoc", workers=1, tag="PLAN")
    lim = ck.n(500, 8000)
    if len(plans) > lim:
        plans = ck.rng.sample(plans, lim)

    def el(tag, depth, i, text):
        return dict(tag=tag, depth=depth, id=i, text=text, tail="")
    T1 = [el("d", 0, "d1", ""), el("p", 1, "x", "a"), el("p", 1, "y", "b")]
    T2 = [el("d", 0, "d2", ""), el("p", 1, "y", "c")]
    names = [dict(op="fn", side="from", name="f.xml"), dict(op="fn", side="to", name="t.xml")]
    out = []
    for k, h in enumerate(plans):
        out.append(dict(run="t%d" % k, params={"from": T1, "to": T2}, ops=[dict(o, q=0) for o in names] + only_last(h)))
    for k in range(ck.n(120, 1500)):
        rng = ck.rng
        tags = rng.choice([["p", "s"], ["p", "s", "w"], ["a"]])
        F, T = [rnd_tree(rng, rng.choice([2, 4, 10]), tags, ["", "x", u"caf\u00e9"], ids="all") for _ in "12"]
        ops = list(names)
        fn = ["f.xml", "t.xml"]
        disk = {}          # name -> method, links?, fn
        method, nl, on, clean, al = "none", 0, False, True, []
        elems = {"from": [], "to": []}
        for _ in range(rng.randint(5, 30)):
            z = rng.random()
            i, j = rng.randint(1, len(F)), rng.randint(1, len(T))
            side = rng.choice(["from", "to"])
            if z < .25:
                ops.append(dict(op="link", how="id" if method == "id" else "n", i=i, j=j))
                nl += 1
            elif z < .3 and not nl:
                method = rng.choice(["n", "id"])
                ops.append(dict(op="method", m=method))
            elif z < .33:
                ops.append(dict(op="clear"))
                nl = 0
            elif z < .4:
                ops.append(dict(op="load"))
                on, al = True, []
            elif z < .48 and on:
                ops.append(dict(op="inject"))
                al = None
            elif z < .54 and on:
                ops.append(dict(op="extract"))
                nl = 99
            elif z < .6 and on:
                ops.append(dict(op="align", i=i, j=j))
                if al is not None:
                    al.append((i, j))
            elif z < .63 and on and al:
                i, j = al.pop(rng.randrange(len(al)))
                ops.append(dict(op="free", i=i, j=j))
            elif z < .66:
                ops.append(dict(op="elems", side=side))
                elems[side] = [x["tag"] for x in (F if side == "from" else T)]
            elif z < .69:
                t = rng.choice(["q", "z"])
                ops.append(dict(op="addelem", side=side, tag=t))
                elems[side] = elems[side] + [t]
            elif z < .75 and elems[side]:
                ops.append(dict(op="setelem", side=side, tag=rng.choice(elems[side]), a=rng.choice(["ignore", "skip", "newline", "blankline"]), v=rng.choice(["True", "False"])))
            elif z < .77:
                ops.append(dict(op="root", side=side, tag=rng.choice(tags)))
            elif z < .79:
                n = rng.choice(["dir/f.xml", "C:\\texts\\a b.xml", u"caf\u00e9.xml", "A", "../x/y.xml", "/abs/z.xml"])
                fn = list(fn)
                fn[side == "to"] = n
                ops.append(dict(op="fn", side=side, name=n))
            elif z < .88:
                f = rng.choice(["a.ptc", "b.ptc"])
                ops.append(dict(op="write", file=f, how=rng.choice(["name", "file"])))
                disk[f] = [method, nl, list(fn), dict((s, list(v)) for s, v in elems.items())]
            elif z < .93 and disk:
                f = rng.choice(sorted(disk))
                ops.append(dict(op="read", file=f))
                method, nl, fn, elems = disk[f][0], disk[f][1], list(disk[f][2]), dict(disk[f][3])
            elif z < .96 and disk:
                fs = [f for f in sorted(disk) if disk[f][2] == ["f.xml", "t.xml"] and rng.random() < .8]
                if fs:
                    ops.append(dict(op="toid", files=fs, V=int(rng.random() < .3)))
                    on, al = on, al
                    for f in fs:
                        disk[f] = ["id"] + disk[f][1:]
            elif z < 1 and disk:
                fs = [f for f in sorted(disk) if rng.random() < .8] or sorted(disk)
                d = rng.choice(["", "new", "new/dir", "/abs", u"n\u00e9w"])
                dry = rng.random() < .3
                mv = dict((f, moved(disk[f][2], d)) for f in fs)
                ops.append(dict(op="chdir", files=fs, dir=d, dry=dry, moved=mv))
                if not dry:
                    for f in fs:
                        disk[f] = disk[f][:2] + [mv[f]] + disk[f][3:]
        out.append(dict(run="rnd%d" % k, params={"from": F, "to": T}, ops=ops))
    fops = []
    for name, docs, byt in [(n, d, b) for n in ["sub/x.xml", "x.xml", u"s\u00fcb/\u00e9.xml"] for d, b in [("docs", 0), (u"d\u00f6cs", 0), (u"d\u00f6cs", 1)]]:
        for bits in range(8):
            here = [bool(bits & 1), bool(bits & 2), bool(bits & 4)]
            if name == "x.xml" and here[1] != here[2]:
                continue        # the same place
            fops.append(dict(op="find", name=name, here=here, given=name, docs=docs, bytes=byt, side=ck.rng.choice(["from", "to"])))
    out.append(dict(run="find", params={"from": T1, "to": T2}, ops=fops))
    tr = ck.drive("ptc_driver.py", out)
    ck.judge("PtcDocTrace", tr, tcfg())
