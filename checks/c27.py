from checks.gpcommon import *
from checks.c26 import dress, rnd_op, NAMES

FINAL = [dict(op="keys", names=["a", "b", "c", "1", "2"]), dict(op="size"), dict(op="calls"),
         dict(op="reconf", max=3, exp=0), dict(op="keys", names=["a", "b", "c", "1", "2"]),
         dict(op="reconf", max=2, exp=0), dict(op="keys", names=["a", "b", "c", "1", "2"]),
         dict(op="reconf", max=1, exp=0), dict(op="keys", names=["a", "b", "c", "1", "2"]),
         dict(op="insert", k="a", v=998), dict(op="insert", k="z", v=999), dict(op="size")]


def run(ck):
    r = ck.rng
    ck.java("Gate.java")
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Locked = TRUE\n Size <- Size%s\n" + "".join("INVARIANT %s\n" % i for i in ["Linearizable", "Bounded", "Mutex", "NoStuck"])
    progs = ck.model("CacheConc", cfg % "11" + "ACTION_CONSTRAINT Emit\n", "CacheConc, one operation each", workers=1, tag="PLAN")
    progs += ck.model("CacheConc", cfg % "21" + "ACTION_CONSTRAINT Emit\n", "CacheConc, two and one", workers=8, tag="PLAN")
    if ck.tier == "thorough":
        ck.model("CacheConc", cfg % "22", "CacheConc, two each", workers=8)
    progs = sorted(progs, key=repr)
    progs = r.sample(progs, min(len(progs), ck.n(350, 4000)))
    plans = []
    for n, p in enumerate(progs):
        plans.append(dict(run="m%d" % n, params=dict(max=p["max"], exp=p["exp"], dfail=False, probe=[]),
                          ops=[dict(op="explore", pre=p["pre"], progs=[[dress(r, o) for o in q] for q in p["progs"]], final=FINAL, seed=r.randint(0, 10**6), one=ck.n(60, 200), more=ck.n(20, 200))]))
    for n in range(ck.n(120, 2000)):
        names = r.sample(NAMES, r.randint(1, 3))
        pre = [dress(r, rnd_op(r, 1 + j, names)) for j in range(r.randint(0, 5))]
        nt = r.choice([2, 2, 3])
        ps = [[dress(r, rnd_op(r, 100 * t + 10 * j, names)) for j in range(r.randint(1, 2 if nt == 3 else 3))] for t in range(1, nt + 1)]
        # the clock is not an operation of the cache: it stands still while the threads run
        ps = [[o for o in q if o["op"] != "tick"] or [dict(op="size")] for q in ps]
        ps = [[dict(o, body=[b for b in o["body"] if b["op"] != "tick"]) if "body" in o else o for o in q] for q in ps]
        ps = [[o if r.random() < .85 else dict(op="keys", names=["a", "b", "1", "2"]) for o in q] for q in ps]
        plans.append(dict(run="r%d" % n, params=dict(max=r.choice([0, 1, 2, 3]), exp=r.choice([0, 0, 1, 2]), dfail=r.random() < .2, probe=[]),
                          ops=[dict(op="explore", pre=pre, progs=ps, final=FINAL, seed=r.randint(0, 10**6), one=ck.n(60, 300), more=ck.n(60, 600))]))
    tr = ck.drive("cacheconc_driver.py", plans, procs=8)
    ck.judge("CacheTrace", tr, tcfg())
