from checks.gpcommon import *

NAMES = ["a", "b", "ab", "a.xml", "b.xml", "a1.xml", "a[1].xml", "A.xml", ".h", ".a.xml", "a b", "b-1", "x", u"\u00e9.xml", "a!", "[a]", "*", "a?b", "10", "9", "a.gz", "ba"]
PATS = ["*", "*", "*.xml", "a*", "?", "??", "a?.xml", "[ab]", "[ab].xml", "[!a]*", "[a-c]*", "a[1].xml", "a[0-9].xml", ".*", "*b*", "*.*", "[[]a]", "[", "[a", "[]a]*", "**", "a*b", "?[!-b]*", u"\u00e9*", u"[\u00e9a]*", "[*]", "*[", "x*y", "[b-]*", "*.[gx]*"]


def rnd_ops(r, n):
    names = r.sample(NAMES, r.randint(4, 12))
    ops = []
    for j in range(n):
        path = [r.choice(names) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        pat = lambda: [r.choice(PATS) if r.random() < .7 else r.choice(names) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        k = r.choice(["touch"] * 6 + ["makedirs"] * 3 + ["remove"] + ["glob"] * 4 + ["multi"] * 4 + ["upath"]) if j > 5 else r.choice(["touch", "touch", "makedirs"])
        o = dict(op=k)
        if k in ("touch", "makedirs", "remove", "upath"):
            o["p"] = path
        if k == "glob":
            o["pat"] = pat()
        if k == "multi":
            o["pats"] = [pat() if r.random() < .7 else path for _ in range(r.choice([0, 1, 2, 2, 3]))]
        if k == "upath":
            o["bad"] = r.random() < .3
        ops.append(o)
    return ops


def dress(r, o):
    o = dict(o)
    if o["op"] in ("makedirs", "glob", "multi", "upath"):
        o.update(how=r.choice(["rel", "rel", "abs", "dot"]), uni=r.random() < .3)
    if o["op"] == "makedirs":
        o.update(slash=r.random() < .2, mode=r.random() < .2)
    if o["op"] == "upath" and o["bad"]:
        o.update(uni=False, how="rel")
    return o


def run(ck):
    r = ck.rng
    laws = ["Tree", "InOrder", "Stepwise", "Star", "Itself", "Together", "Made"]
    c = dict(Names='{"a", ".a", "[a]"}' if ck.tier == "quick" else '{"a", "a.b", ".a", "[a]"}', Patterns='{"*", "a*", "[a]", "[!a]*", ".*"}', Depth=3)
    hs = ck.model("Files", mcfg(laws, [], c), "Files", workers=8, tag="PLAN")
    hs = sorted(hs, key=repr)
    lim = ck.n(500, 8000)
    hs = r.sample(hs, lim) if len(hs) > lim else hs
    pats = ["*", "a*", "[a]", "[!a]*", "?.b", ".*"]
    plans = []
    for k, h in enumerate(hs):
        look = [dict(op="glob", pat=[p]) for p in pats] + [dict(op="glob", pat=[r.choice(pats), r.choice(pats)]),
                dict(op="multi", pats=[[r.choice(pats + ["a", "[a]"])] for _ in range(2)])]
        plans.append(dict(run="m%d" % k, params={}, ops=[dress(r, o) for o in h + look]))
    for k in range(ck.n(200, 4000)):
        plans.append(dict(run="r%d" % k, params={}, ops=[dress(r, o) for o in rnd_ops(r, r.randint(10, 40))]))
    tr = ck.drive("opsys_driver.py", plans, procs=4)
    ck.judge("FilesTrace", tr, tcfg())
