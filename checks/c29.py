from checks.gpcommon import *
UNITS = ["int", "int", "float", "quarter", "tenth", "long", "huge", "big", "tiny", "max"]
INV = ["Independent", "Reduced", "Optimal", "Agree", "Ends", "Going"]


def cfg(**k):
    s = mcfg(INV, [], k)
    for x in ("Shapes", "Costs"):
        s = s.replace(x + " = ", x + " <- ")
    return s


def run(ck):
    r = ck.rng
    ms = ck.model("Munkres", cfg(Shapes="MCShapes", Costs="MCFew", Distinct="TRUE"), "Munkres, up to 3x3 over 0..2", workers=8, tag="PLAN")
    if ck.tier == "thorough":
        ms += ck.model("Munkres", cfg(Shapes="MCShapes", Costs="MCCosts", Distinct="TRUE"), "Munkres, up to 3x3 over -1,0,1,3", workers=8, tag="PLAN")
        ms += ck.model("Munkres", cfg(Shapes="MCMore", Costs="MCFew", Distinct="TRUE"), "Munkres, 3x4, 4x2", workers=8, tag="PLAN")
        ms += ck.model("Munkres", cfg(Shapes="MCFour", Costs="MCTwo", Distinct="TRUE"), "Munkres, 4x4 over 0,1", workers=8, tag="PLAN")
    for x in ms:
        # any order of the rows
        r.shuffle(x)
    xs = [dict(m=m, unit=r.choice(UNITS), fresh=r.random() < .3) for m in ms]
    for _ in range(ck.n(1500, 30000)):
        a, b = r.choice([(r.randint(1, 4), r.randint(1, 4)), (5, 5), (r.randint(2, 6), r.randint(2, 6)), (r.randint(5, 9), r.randint(5, 9))])
        hi = r.choice([1, 2, 5, 20, 1000])
        lo = r.choice([0, 0, 0, -hi, hi])
        m = [[r.randint(lo, lo + hi) for _ in range(b)] for _ in range(a)]
        if r.random() < .15:
            m[r.randrange(a)] = [r.randint(lo, hi + lo)] * b
        if r.random() < .1:
            m = [[(i + 1) * (j + 1) for j in range(b)] for i in range(a)]
        xs.append(dict(m=m, unit=r.choice(UNITS), fresh=r.random() < .3))
    r.shuffle(xs)
    ops = [dict(op="compute", ms=xs[k:k + 5]) for k in range(0, len(xs), 5)]
    for _ in range(ck.n(100, 1000)):
        m = [[r.choice([0, r.randint(-5, 5), r.randint(0, 2000)]) for _ in range(b)] for b in [r.randint(1, 5)] for _ in range(r.randint(1, 4))]
        ops.append(r.choice([dict(op="invert", m=m, top=r.choice([0, 100, 2000]), how=r.choice(["method", "function"])), dict(op="print", m=m, msg=r.choice(["", "Costs:"]))]))
    r.shuffle(ops)
    plans = [dict(run="x%d" % k, params={}, ops=ops[k:k + 2]) for k in range(0, len(ops), 2)]
    tr = ck.drive("munkres_driver.py", plans, procs=6)
    ck.judge("MunkresTrace", tr, tcfg())
