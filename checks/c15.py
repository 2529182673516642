from checks.gpcommon import *

NUM = {"T": [("C1", "count"), ("C2", "count"), ("P", "percent"), ("A", "average")],
       "N": [("C1", "count"), ("A", "average"), ("C2", "count")],
       "pgc": [(c, "count") for c in "CGP CGPFU CGPFP CGPUR CNP CEQ CRE CGEN CSPEC CINT".split()] + [(c, "percent") for c in "PGPFU PGPFP PEQ PINT".split()],
       "gb": [(c, "count") for c in "CG CGA CGU CGSA CGMA CGUR CGFP CT CN CNA CNU".split()] + [("PGA", "percent"), ("ATG", "average"), ("PNA", "percent")]}
STR = {"T": "NAME", "pgc": "CORPUS", "gb": "BANK"}


def run(ck):
    c = dict(Objs='{"x", "y"}', Vals='{3, 10}', MaxRows=2, MaxLen=ck.n(4, 5))
    hists = ck.model("Table", mcfg(["RoundTrip"], ["GrowKeeps", "OthersKept", "Sums"], c), "Table: two tables, at most two rows", workers=1, tag="PLAN")
    lim = ck.n(1500, 20000)
    if len(hists) > lim:
        hists = ck.rng.sample(hists, lim)
    plans = []
    for k, h in enumerate(hists):
        plans.append(dict(run="t%d" % k, ops=[dict(o, q=int(i == len(h) - 1), all=1) for i, o in enumerate(h)]))
    names = ["a.pgc", "corpus-1.xml", "x", "a b.pgc", "very-long-name-of-a-corpus-file.pgc", "1", "2.5", "", "c  d", "--x", "a#b%s", "  lead"]
    for k in range(ck.n(150, 2500)):
        cls = ck.rng.choice(["T", "T", "N", "pgc", "gb"])
        n0 = ck.rng.choice([0, 0, 1, 3, 3, 22])
        ops = [dict(op="new", o="x", cls=cls, n=n0), dict(op="new", o="y", cls=cls, n=0)]
        rows = {"x": n0, "y": 0}
        files = {}
        big = cls in "TN" and ck.rng.random() < .5
        for _ in range(ck.rng.randint(4, 40)):
            o = ck.rng.choice(["x", "x", "y"])
            z = ck.rng.random()
            if z < .1:
                n = ck.rng.choice([0, 1, 2])
                ops.append(dict(op="grow", o=o, n=n))
                rows[o] += n
            elif z < .65:
                if not rows[o]:
                    continue
                r = ck.rng.randint(1, rows[o])
                if cls in STR and ck.rng.random() < .25:
                    ops.append(dict(op="set", o=o, r=r, c=STR[cls], v=ck.rng.choice(names)))
                else:
                    col, ty = ck.rng.choice(NUM[cls])
                    v = ck.rng.choice([0, 1, 7, 300, 1234])
                    if big and ty == "count":
                        v = ck.rng.choice([99999, 1234567, 9999999, 12345678])
                    elif ty != "count":
                        v = ck.rng.choice([0, 5, 10000, 3333, 99999] + [9999999, 12345678] * big)
                    ops.append(dict(op="set" if ty != "count" or big or ck.rng.random() < .5 else "inc", o=o, r=r, c=col, v=v))
            elif z < .8:
                ops.append(dict(op="sum", o=o))
            elif z < .9 and rows[o] < 20:
                ops.append(dict(op="write", o=o, **ck.rng.choice([{}, dict(leg=0), dict(leg=1)])))
                files[o] = rows[o]
            elif files:
                p = ck.rng.choice(sorted(files))
                if rows[o] + files[p] <= 20:
                    ops.append(dict(op="read", o=o, p=p, how=ck.rng.choice(["file", "name"])))
                    rows[o] += files[p]
        ops += [dict(op="sum", o="x"), dict(op="write", o="x"), dict(op="new", o="y", cls=cls, n=0), dict(op="read", o="y", p="x"), dict(op="sum", o="y")]
        plans.append(dict(run="rnd%d" % k, ops=ops))
    for k in range(ck.n(15, 150)):
        ops = []
        for _ in range(2):
            subs = ck.rng.sample(["nb", "qa", "sub/deep", "x1"], ck.rng.choice([1, 2, 3]))
            num = [0]

            def want():
                res = []
                for _ in range(ck.rng.choice([0, 1, 1, 2, 2, 11])):
                    num[0] += 1
                    n = ck.rng.choice([1, 2, 3, 12])
                    res.append(["f%d.pgc" % num[0], n, ck.rng.choice([0, 0, 1, n])])
                return res
            annots = ck.rng.choice([["ma", "aa", "na"], ["ma"], ["na", "x"]])
            again = ck.rng.choice([[], [], [("again", [annots[-1]])], [("again", [annots[0] + "." + subs[0]])], [("again", [subs[-1], "aa"])], [("again", ["all"])]])
            ops.append(dict(again, op="segment", name=ck.rng.choice(["seg1", "deaso.x"]), slash=ck.rng.choice(["", "/"]), targets=ck.rng.choice([["all"], []]),
                            annots=[dict(name=a, subs=[dict(name=s, want=want(), extra=want()) for s in subs]) for a in annots]))
        plans.append(dict(run="seg%d" % k, ops=ops))
    tr = ck.drive("table_driver.py", plans)
    ck.judge("TableTrace", tr, tcfg())
