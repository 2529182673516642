from checks.gpcommon import *

TEXTS = ["", "", " ", "\n", "a", "a b", " a", "b ", "\n  x\n", u"caf\u00e9", "<&>", "'\"", "a\n\nb", "]]>", u"\u4e2d \U0001f600", "0"]
ATTR = ["a", "b c", u"\u00e9", "<&\"'>", " ", " x", "0"]
TAGS = ["r", "p", "q", "x-1", "meta_data"]
ENC = ["utf-8", "UTF-8", "iso-8859-1", "ascii"]


def dress(rng, o):
    o = dict(o, alt=rng.random() < .4)
    if o["op"] == "file":
        o["how"] = rng.choice(["name", "name", "file", "string", "stdout"])
        if rng.random() < .2:
            o["enc"] = rng.choice(ENC)
    return o


class Tree(object):
    """the shape of a tree, to choose paths from"""
    def __init__(self, kids=()):
        self.kids = list(kids)

    def copy(self):
        return Tree(k.copy() for k in self.kids)

    def paths(self):
        return [[]] + [[i + 1] + p for i, k in enumerate(self.kids) for p in k.paths()]

    def at(self, p):
        return self.kids[p[0] - 1].at(p[1:]) if p else self


def rnd_ops(rng, objs, n):
    deep = rng.random() < .4
    h = dict((o, Tree()) for o in objs)
    ops = []
    for _ in range(n):
        o = rng.choice(objs)
        p = rng.choice(h[o].paths())
        if deep:
            # trees that are rather deep than broad
            p = max(rng.sample(h[o].paths(), min(4, len(h[o].paths()))), key=len)
        t = h[o].at(p)
        k = rng.choice(["text", "text", "tail", "tail", "tag", "attr", "attr", "add", "add", "add", "add", "del", "swap", "indent", "file", "file"])
        op = dict(op=k, o=o, p=p)
        if k == "text" or k == "tail":
            if k == "tail" and not p:
                continue
            op["v"] = rng.choice(TEXTS)
        elif k == "tag":
            op["v"] = rng.choice(TAGS)
        elif k == "attr":
            op.update(k=rng.choice(["a1", "a2", "a3"]), v=rng.choice(["", "", "u"] + ATTR))
        elif k == "add":
            if len(h[o].paths()) > 15:
                continue
            op["v"] = rng.choice(TAGS)
            t.kids.append(Tree())
        elif k in ("del", "swap"):
            m = len(t.kids) - (k == "swap")
            if m < 1:
                continue
            op["i"] = i = rng.randint(1, m)
            if k == "del":
                del t.kids[i - 1]
            else:
                t.kids[i - 1], t.kids[i] = t.kids[i], t.kids[i - 1]
        elif k == "indent":
            op = dict(op=k, o=o)
        else:
            x = rng.choice(objs)
            op = dict(op=k, o=o, x=x, pretty=rng.random() < .4)
            h[o] = h[x].copy()
        ops.append(dress(rng, op))
    return ops


def run(ck):
    plans = []
    # trees that differ in one respect, and trees that differ in layout only
    inv, props = ["Equivalence", "Indented", "IndentBlind", "SameWords"], ["FileKeeps", "OthersKept"]
    for lab, c in [("two trees, 2 nodes, 3 operations", dict(Objs='{"x", "y"}', Tags='{"p", "q"}', Texts='{" ", "a", " a "}', Attrs='{"a1"}', MaxNodes=2, MaxLen=3)),
                   ("one tree, 4 nodes, 5 operations", dict(Objs='{"x"}', Tags='{"p"}', Texts='{" ", "b"}', Attrs="{}", MaxNodes=4, MaxLen=ck.n(4, 5)))]:
        h = ck.model("ETree", mcfg(inv, props, c), "ETree " + lab, workers=8, tag="PLAN")
        h = [x for x in h if len(x) == c["MaxLen"]] or h
        lim = ck.n(1500, 20000)
        h = ck.rng.sample(h, lim) if len(h) > lim else h
        objs = ["x", "y"] if "y" in c["Objs"] else ["x"]
        plans += [dict(run="%s%d" % ("".join(objs), k), params=dict(objs=objs), ops=[dress(ck.rng, o) for o in q]) for k, q in enumerate(h)]
    for k in range(ck.n(150, 3000)):
        objs = ["x", "y", "z"][:ck.rng.choice([2, 3])]
        plans.append(dict(run="rnd%d" % k, params=dict(objs=objs), ops=rnd_ops(ck.rng, objs, ck.rng.randint(5, 40))))
    tr = ck.drive("etree_driver.py", plans)
    ck.judge("ETreeTrace", tr, tcfg())
