# -*- coding: utf-8 -*-
"""corpora from parallel text, phrases from corpora"""
from checks.gpcommon import *

RELS = ["equals", "restates", "specifies", "generalizes", "intersects"]


def cased(r, w):
    u = w.upper()
    return u if u.lower() == w and len(u) == len(w) and r.random() < .3 else w


def spaced(r, ws):
    t = r.choice(["", "", " ", "\n\t"])
    for k, w in enumerate(ws):
        t += (r.choice([" ", " ", "  ", "\n  ", "\t"]) if k else "") + cased(r, w)
    return t + r.choice([" ", "\n", "  "])


def raw(r, es):
    """the text of the elements as written: any case, any white space"""
    return [dict(e, raw=[spaced(r, e["w"]), spaced(r, e["x"])]) for e in es]


def text(r, n, words, tags=("s",), gap=0.0):
    es = [dict(tag="d", id="d", depth=0, w=[], x=[])]
    ids = [str(k + 1) for k in range(n)]
    if r.random() < .3:
        ids = [u"s%s.\u00e9" % k for k in ids]
    if r.random() < .3:
        r.shuffle(ids)
    np = 0
    for k in range(n):
        if "p" in tags and (np == 0 or r.random() < .4):
            np += 1
            es.append(dict(tag="p", id=ids[np - 1] if r.random() < .7 else "p%d" % np, depth=1, w=r.choice([[], [], [r.choice(words)]]), x=[]))
        es.append(dict(tag="s", id=ids[k], depth=2 if np else 1, w=[r.choice(words) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))], x=r.choice([[], [], [], [r.choice(words)]])))
        if r.random() < .1:
            d = es[-1]["depth"] + 1
            for _ in range(r.randint(1, 2)):
                es.append(dict(tag="w", id="w%d" % len(es), depth=d, w=[r.choice(words)], x=[r.choice(words) for _ in range(r.choice([0, 0, 2]))]))
    seen, out = set(), []
    for e in es:        # one element for each tag and id
        if (e["tag"], e["id"]) in seen:
            e = dict(e, id="x%d" % len(out))
        seen.add((e["tag"], e["id"]))
        out.append(e)
    return out


def bank(r, es, words, miss=0.0):
    b, seen = [], set()
    for e in es:
        if e["id"] not in seen and r.random() >= miss:
            seen.add(e["id"])
            b.append(dict(id=e["id"], nodes=[dict(id="n%d" % (j + 1), w=[r.choice(words) for _ in range(r.randint(0, 4))])
                                             for j in range(r.randint(2, 5))]))
    if r.random() < .3:
        r.shuffle(b)
    return b


def random_plan(ck, r, k):
    words = r.choice([["a", "b"], ["de", "kat", u"\u00e9\u00e9n", "3,5", "'s", "x-y"], [u"\u00fcber", "of", "the", "a", "zz"]])
    tags = r.choice([("s",), ("s", "p")])
    sub = r.choice(["", "", "d/", u"d\u00e9/", "a b/"])
    docs, banks, where, use = {}, {}, {}, []
    for i in range(r.choice([1, 1, 2, 3])):
        nm = r.choice(["x%d", "x%d.v1", "a b%d", u"\u00e9%d"]) % i
        F, T = text(r, r.randint(0, 7), words, tags), text(r, r.randint(0, 7), words, tags)
        good = r.random() < .75
        links = []
        for _ in range(r.choice([0, 1, 3, 6, 10])):
            a, b = r.choice(F), r.choice(T)
            if not good and r.random() < .15:
                a = dict(tag=r.choice(["s", "p"]), id="nowhere")
            if not good and r.random() < .15:
                b = dict(tag=r.choice(["s", "p"]), id="nowhere")
            links.append(dict(ft=a["tag"], fi=a["id"], tt=b["tag"], ti=b["id"]))
        docs[nm] = dict(f=raw(r, F), t=raw(r, T), links=links)
        miss = 0 if good else r.choice([0, .1, .3])
        sb, tb = "%sgb/%d-f.xml" % (sub, i), "%sgb/%d-t.xml" % (sub, i)
        banks[sb], banks[tb] = bank(r, F, words, miss), bank(r, T, words, miss)
        if r.random() < .15:        # the same bank on both sides
            tb = sb
            for e in bank(r, T, words, miss):
                if e["id"] not in [g["id"] for g in banks[sb]]:
                    banks[sb].append(e)
        d = r.choice(["", "", sub, "ptc/"])
        f, t = r.choice([d, "txt/"]) + "f%d.xml" % i, r.choice([d, "txt/"]) + "t%d.xml" % i
        # absolute, relative to the document, beside it under another directory
        import posixpath
        def name(p):
            c = ["%R/" + p, posixpath.relpath(p, d or ".")]
            if posixpath.dirname(p) == d.rstrip("/"):
                c.append("/no/such/dir/" + posixpath.basename(p))
            return r.choice(c)
        where[nm] = [d + nm + r.choice([".ptc", ".xml"]), f, t, name(f), name(t)]
        use.append(dict(doc=nm, sb=sb, tb=tb, out=posixpath.splitext(posixpath.basename(where[nm][0]))[0] + ".pgc"))
    ops, sim = [], {}
    for _ in range(r.randint(1, 3)):
        ds = r.sample(use, r.randint(1, len(use)))
        api = r.random() < .3
        o = dict(op="create", docs=ds, nf=len(ds), nt=len(ds), ft=r.choice(tags), tt=r.choice(tags), max=r.choice([99999, 99999, 99999, 0, 1, 2, 3, 5, 8]),
                 min=r.choice([0, 0, 0, 1, 2, 3, 5]), rels=r.choice([RELS, ["equals"], ["b", "a"]]), how=r.choice(["rel", "abs"]), api=int(api), long=r.randint(0, 1))
        if o["rels"] == RELS:
            o["defrels"] = r.randint(0, 1)
        if not api and r.random() < .05:
            o[r.choice(["nf", "nt"])] += r.choice([-1, 1])
            o["nf"], o["nt"] = max(o["nf"], 1), max(o["nt"], 1)
        ops.append(o)
        ops.append(dict(op="alignsome"))
        ops.append(dict(op="extract", cs=None, verbose=r.random() < .5, delim=r.choice(["\t", "\t", "|", "", " ## ", u"\u2192"]), how=r.choice(["", "abs", "rel"])))
    # the corpora a plan may count on are computed when the plan is built
    out, cor = [], {}
    for o in ops:
        if o["op"] == "create":
            if o["nf"] == o["nt"] == len(o["docs"]):
                for x in o["docs"]:
                    c = created(docs[x["doc"]], banks[x["sb"]], banks[x["tb"]], o)
                    if c is None:
                        break
                    cor[x["out"]] = [(x["sb"], x["tb"], l["fi"], l["ti"], set(), set()) for l in c]
            out.append(o)
        elif o["op"] == "alignsome":
            for c in sorted(cor):
                for kk, (sb, tb, sg, tg, U, V) in enumerate(cor[c]):
                    for _ in range(r.choice([0, 0, 1, 2, 4])):
                        u = r.choice([g for g in banks[sb] if g["id"] == sg][0]["nodes"])["id"]
                        v = r.choice([g for g in banks[tb] if g["id"] == tg][0]["nodes"])["id"]
                        if u not in U and v not in V:
                            U.add(u)
                            V.add(v)
                            out.append(dict(op="align", c=c, k=kk + 1, a=[u, v, r.choice(RELS + [u"r\u00e9l"])]))
        elif cor:
            out.append(dict(o, cs=r.sample(sorted(cor), r.randint(1, len(cor)))))
    return dict(run="rnd%d" % k, params=dict(docs=docs, banks=banks, where=where), ops=out)


def created(d, sb, tb, o):
    """which corpus a plan may build on; the verdict is that of the specification"""
    def toks(es, tag, i):
        for k, e in enumerate(es):
            if (e["tag"], e["id"]) == (tag, i):
                t = " ".join(e["w"])
                for j, x in enumerate(es[k + 1:], k + 1):
                    if x["depth"] <= e["depth"]:
                        break
                    t += " ".join(x["w"])
                    # tails of the elements that end here
                    nd = es[j + 1]["depth"] if j + 1 < len(es) else 0
                    for y in reversed(es[k + 1:j + 1]):
                        if y["depth"] < nd:
                            break
                        if y["depth"] <= e["depth"]:
                            break
                        if not any(z["depth"] <= y["depth"] for z in es[es.index(y) + 1:j + 1]):
                            t += " ".join(y["x"])
                return t.split()
    res = []
    for l in d["links"]:
        if (l["ft"], l["tt"]) != (o["ft"], o["tt"]):
            continue
        a, b = toks(d["f"], l["ft"], l["fi"]), toks(d["t"], l["tt"], l["ti"])
        if a is None or b is None:
            return None
        if max(len(a), len(b)) > o["max"] or sum(x not in b for x in a) + sum(x not in a for x in b) < o["min"]:
            continue
        if l["fi"] not in [g["id"] for g in sb] or l["ti"] not in [g["id"] for g in tb]:
            return None
        res.append(l)
    return res


def run(ck):
    r = ck.rng
    c = dict(MaxLen=ck.n(5, 6), Words1="{}", Small="TRUE" if ck.tier == "quick" else "FALSE")
    cfg = mcfg(["Monotone", "Unbound", "Mirrored", "OneLine"], [], c)
    hs = [h for h in ck.model("Creation", cfg, "corpora from linked texts, phrases from corpora", tag="PLAN", workers=8)
          if h[-1]["op"] in ("create", "extract")]
    ck.cov["model_behaviours"] = len(hs)
    hs.sort(key=repr)
    lim = ck.n(700, 8000)
    if len(hs) > lim:
        hs = r.sample(hs, lim)

    def el(tag, i, depth, w): return dict(tag=tag, id=i, depth=depth, w=w, x=[])
    TF = [el("d", "d1", 0, []), el("p", "1", 1, ["c"]), el("s", "1", 2, ["a", "b", "a"]), el("s", "2", 2, ["b"])]
    TT = [el("d", "d1", 0, []), el("s", "1", 1, ["b", "c"]), el("p", "1", 1, ["c"]), el("s", "2", 2, [])]
    n = lambda i, w: dict(id=i, w=w)
    B = dict(b1=[dict(id="1", nodes=[n("n1", ["a", "b"]), n("n2", [])]), dict(id="2", nodes=[n("n1", ["b"]), n("n2", ["x"])])],
             b2=[dict(id="1", nodes=[n("n1", ["c"]), n("n2", ["d", "e"])])])
    plans = []
    for k, h in enumerate(hs):
        plans.append(dict(run="mod%d" % k, params=dict(docs=dict(x=dict(f=raw(r, TF), t=raw(r, TT), links=[])), banks=B,
                                                       where=dict(x=["x.ptc", "f.xml", "t.xml", "f.xml", "t.xml"])),
                          ops=[dict(o, **(dict(api=r.randint(0, 1), how=r.choice(["rel", "abs"])) if o["op"] == "create" else {})) for o in h]))
    for k in range(ck.n(400, 5000)):
        plans.append(random_plan(ck, r, k))
    tr = ck.drive("creation_driver.py", plans, procs=6)
    ck.judge("CreationTrace", tr, tcfg())
