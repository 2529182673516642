from checks.gpcommon import *

NAMES = ["a", "b", "1", "2", "k3"]


def dress(r, o):
    """choose how to call the operation; the specification does not depend on it"""
    o = dict(o)
    if "k" in o:
        o["kt"] = r.choice("ssui")
    if o["op"] == "insert":
        o["how"] = r.choice(["item", "item", "insert", "node", "subnode"])
    elif o["op"] == "fetch":
        o["how"] = "item" if o["fail"] == "default" and not o["miss"] and r.random() < .6 else "fetch"
    elif o["op"] == "gen" and o.get("how") != "auto":
        o["how"] = r.choice(["cached", "gen"])
        o["body"] = [dress(r, b) for b in o["body"]]
    elif o["op"] == "remove":
        o["how"] = r.choice(["item", "remove"])
    elif o["op"] == "has":
        o["how"] = r.choice(["in", "has"])
    return o


def drain(r, n, exp=0):
    """shrink the cache step by step: what goes first was used least recently"""
    return [dict(op="reconf", max=m, exp=exp) for m in range(n, 0, -1)] + [dict(op="insert", k=k, v=900 + j) for j, k in enumerate(r.sample(["x", "y", "z"], 2))]


def rnd_op(r, v, names, nest=True):
    k = r.choice(names)
    o = r.choice("iiiiffffggggrRhsct+CT")
    if o in "fgi" and r.random() < .12:
        v = 0
    if o in "i":
        return dict(op="insert", k=k, v=v)
    if o == "f":
        return dict(op="fetch", k=k, fail=r.choice(["default", "default", "yes", "no"]), miss=r.random() < .4)
    if o == "g":
        return dict(op="gen", k=k, v=v, boom=r.random() < .15, body=[rnd_op(r, 100 * v + j, names, False) for j in range(r.choice([0, 0, 1, 2]))] if nest else [])
    if o == "r":
        return dict(op="remove", k=k)
    if o == "R":
        return dict(op="reconf", max=r.choice([0, 1, 2, 3, 4]), exp=r.choice([0, 0, 2, 3]))
    if o == "h":
        return dict(op="has", k=k)
    if o == "s":
        return dict(op="size")
    if o == "c" and r.random() < .3:
        return dict(op="clear")
    if o == "C":
        return dict(op="collect")
    return dict(op="tick", n=r.choice([1, 1, 2, 3]))


ARGS = [[], [1], ["1"], [1, 2], [12], ["a"], ["a", "b"], ["ab"], [[1]]]
KWS = [[], [], [["x", 1]], [["x", 2]], [["y", 1]], [["x", "1"]], [["x", 1], ["y", 2]]]


def auto_op(r, v):
    """a call of a function cached under its name and arguments: the key names all of these"""
    fn, a, kw = r.choice("fg"), r.choice(ARGS), r.choice(KWS)
    return dict(op="gen", how="auto", fn=fn, args=a, kw=kw, k="%s%r%r" % (fn, a, kw), v=0 if r.random() < .2 else v, boom=r.random() < .1, body=[])


def lru_op(r, j):
    o = r.choice("uuuuudddpplLsc" if j else "u")
    if o in "ud":
        return dict(op=dict(u="lru.update", d="lru.discard")[o], k=r.choice("abcdefg"))
    if o == "c" and r.random() < .5:
        return dict(op="lru.clear")
    return dict(op=dict(p="lru.pop", l="lru.list", L="lru.list", s="lru.str", c="lru.pop")[o], how="tolist" if o == "L" else "")


def run(ck):
    laws = ["Bounded", "Distinct", "Fresh", "Pushed", "Kept", "Recent", "Stable", "Once", "Honest"]
    hs = ck.model("Cache", mcfg(laws, [], dict(Names='{"a", "b", "1"}', Limits="MCLimits", Lives="MCLives", Depth=ck.n(3, 4))).replace("Limits = ", "Limits <- ").replace("Lives = ", "Lives <- "), "Cache", workers=1, tag="PLAN")
    if ck.tier == "quick":
        # the laws once more, deeper, over fewer keys
        ck.model("Cache", mcfg(laws, [], dict(Names='{"a", "b"}', Limits="{0, 1, 2}", Lives="{0, 2}", Depth=4), False), "Cache, four operations", workers=8)
    r = ck.rng
    hs = hs if len(hs) < ck.n(2500, 30000) else r.sample(hs, ck.n(2500, 30000))
    plans = []
    for n, h in enumerate(hs):
        p = dict(h["conf"], probe=["a", "b", "1", "x"], explicit=r.random() < .5)
        plans.append(dict(run="m%d" % n, params=p, ops=[dress(r, o) for o in h["ops"] + drain(r, 3)]))
    for n in range(ck.n(600, 12000)):
        names = r.sample(NAMES, r.randint(2, 5))
        p = dict(max=r.choice([0, 1, 2, 2, 3, 3, 4, 10]), exp=r.choice([0, 0, 1, 2, 3]), dfail=r.random() < .3, probe=NAMES + ["zz"], explicit=r.random() < .5)
        ops = [rnd_op(r, j + 1, names) for j in range(r.randint(5, 40))]
        plans.append(dict(run="r%d" % n, params=p, ops=[dress(r, o) for o in ops + drain(r, 4)]))
    for n in range(ck.n(150, 3000)):
        p = dict(max=r.choice([0, 0, 2, 3, 5]), exp=r.choice([0, 0, 2]), dfail=False, probe=NAMES, explicit=r.random() < .5)
        ops = [auto_op(r, j + 1) if r.random() < .75 else dress(r, rnd_op(r, j + 1, NAMES)) for j in range(r.randint(5, 40))]
        plans.append(dict(run="a%d" % n, params=p, ops=ops + [dress(r, o) for o in drain(r, 4)]))
    for n in range(ck.n(100, 2000)):
        plans.append(dict(run="l%d" % n, params=dict(max=0, exp=0, dfail=False, probe=[]), ops=[lru_op(r, j) for j in range(r.randint(2, 30))] + [dict(op="lru.str"), dict(op="lru.list", how="")]))
    tr = ck.drive("cache_driver.py", plans, procs=6)
    ck.judge("CacheTrace", tr, tcfg())
