from checks.gpcommon import *


def rnd_tree(rng, n, tags, words, ids=False):
    """a random document; raw texts may have white space around them"""
    res, depth, num = [], 0, {}
    for k in range(n):
        depth = 0 if k == 0 else rng.randint(1, min(depth + 1, 6))
        raw = [rng.choice(["", "", " ", "\n  "]) + rng.choice(words) + rng.choice(["", "\n", "  "]) for _ in range(2)]
        if k == 0:
            raw[1] = ""
        x = dict(tag=rng.choice(tags) if k else rng.choice(tags + ["doc"]), depth=depth, id="", text=raw[0].strip(), tail=raw[1].strip(), raw=raw)
        if ids and (ids == "all" or rng.random() < .5):
            num[x["tag"]] = num.get(x["tag"], 0) + 1
            x["id"] = x["tag"] + str(num[x["tag"]]) if ids == "all" or rng.random() < .9 else "same"
        res.append(x)
    return res


def run(ck):
    plans = []
    for lab, c in [("three elements", dict(Tags='{"p", "s"}', Texts='{"", "ab"}', Tails='{"", "c"}', MaxNodes=3)),
                   ("four elements", dict(Tags='{"p", "s"}', Texts='{"ab"}', Tails='{"", "c"}', MaxNodes=4))] + \
                  ([("five elements", dict(Tags='{"p", "s"}', Texts='{"a"}', Tails='{"c"}', MaxNodes=5))] if ck.tier == "thorough" else []):
        plans += ck.model("ElemTree", mcfg(["Total", "Nested", "Own", "Fewer", "Counting"], [], c), "ElemTree " + lab, workers=8, tag="PLAN")
    lim = ck.n(900, 10**9)
    if len(plans) > lim:
        plans = ck.rng.sample(plans, lim)

    def ups(rng, tags, n):
        sub = lambda p: [t for t in tags if rng.random() < p]
        return [dict(op="update", ignore=sub(.25), newline=sub(.3), blank=sub(.2), dirty=int(rng.random() < .3)) for _ in range(n)]
    out = []
    for k, t in enumerate(plans):
        out.append(dict(run="t%d" % k, params=dict(tree=t), ops=ups(ck.rng, ["p", "s"], 3)))
    for k in range(ck.n(150, 2500)):
        tags = ck.rng.choice([["p", "s"], ["p", "s", "note", "w"], ["a"]])
        t = rnd_tree(ck.rng, ck.rng.choice([1, 2, 6, 15, 40]), tags, ck.rng.choice([["", "x", "some words", u"caf\u00e9 \u00e9", "a\n b"], ["w"], ["", "w1 w2"]]),
                     ids=ck.rng.choice([False, True, "all"]))
        out.append(dict(run="rnd%d" % k, params=dict(tree=t), ops=ups(ck.rng, tags + ["doc"] * (ck.rng.random() < .2), 4)))
    tr = ck.drive("elem_driver.py", out)
    ck.judge("ElemTreeTrace", tr, tcfg())
