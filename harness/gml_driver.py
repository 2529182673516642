# -*- coding: utf-8 -*-
"""Parse generated GraphML graphbanks (C09)."""
import drv, os, random, tempfile, codecs
from daeso.gb.graphml import GraphmlParser
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphMapping
from daeso.pair import Pair


def text(v):
    return v["pad"] + v["sep"].join(v["w"]) + v["pad"]


class Writer(object):
    def __init__(self, seed, style):
        self.r = random.Random(seed)
        self.style = style

    def esc(self, t, attr=False):
        out = []
        for c in t:
            if c in u"&<>\"'":
                out.append({u"&": u"&amp;", u"<": u"&lt;", u">": u"&gt;", u'"': u"&quot;", u"'": u"&apos;"}[c])
            elif (ord(c) > 127 or c in u"\n\t") and (self.style.get("refs") or (attr and c in u"\n\t")):
                out.append(u"&#%d;" % ord(c))
            else:
                out.append(c)
        return u"".join(out)

    def body(self, t):
        if self.style.get("cdata") and t and self.r.random() < 0.5 and u"]]>" not in t and u"\r" not in t:
            k = self.r.randint(0, len(t))
            return self.esc(t[:k]) + u"<![CDATA[" + t[k:] + u"]]>"
        if self.style.get("comments") and t and self.r.random() < 0.4:
            k = self.r.randint(0, len(t))
            return self.esc(t[:k]) + u"<!-- c -->" + self.esc(t[k:])
        return self.esc(t)

    def nl(self):
        s = u"\n" + u" " * self.r.randint(0, 6) if self.style.get("ws", True) else u""
        if self.style.get("comments") and self.r.random() < 0.2:
            s += u"<!-- <data key='l'>no</data> -->"
        return s

    def desc(self):
        return u"<desc>some text</desc>" if self.style.get("desc") and self.r.random() < 0.4 else u""

    def data(self, i):
        t = text(i["v"])
        if t == u"" and self.r.random() < 0.5:
            return u'<data key="%s"/>' % self.esc(i["key"], True)
        return u'<data key="%s">%s</data>' % (self.esc(i["key"], True), self.body(t))

    def item(self, i):
        if i["t"] == "data":
            return self.data(i)
        a = (u'node id="%s"' % self.esc(i["id"], True) if i["t"] == "node" else
             u'edge source="%s" target="%s"' % (self.esc(i["u"], True), self.esc(i["v"], True)))
        if i["t"] == "edge" and self.style.get("desc"):
            a = u'edge id="e9" directed="true" ' + a[5:]
        if not i["data"] and self.r.random() < 0.6:
            return u"<%s/>" % a
        return u"<%s>%s%s</%s>" % (a, self.desc(), u"".join(self.nl() + self.data(d) for d in i["data"]) + self.nl(), i["t"])

    def key(self, k):
        f = u"" if k["for"] == "all" and self.r.random() < 0.5 else u' for="%s"' % k["for"]
        t = u"" if self.r.random() < 0.3 else u' attr.type="string"'
        a = u'<key id="%s"%s attr.name="%s"%s' % (self.esc(k["id"], True), f, self.esc(k["name"], True), t)
        if not k["hasdef"]:
            return a + (u"/>" if self.r.random() < 0.7 else u"> </key>")
        return a + u">%s<default>%s</default>%s</key>" % (self.nl(), self.body(text(k["def"])), self.nl())

    def doc(self, d):
        out = [u"<graphml>" if self.r.random() < 0.3 else u'<graphml xmlns="http://graphml.graphdrawing.org/xmlns">', self.desc()]
        for k in d["keys"]:
            out += [self.nl(), self.key(k)]
        for g in d["graphs"]:
            out += [self.nl(), u'<graph id="%s" edgedefault="directed">' % self.esc(g["id"], True), self.desc()]
            for i in g["items"]:
                out += [self.nl(), self.item(i)]
            out += [self.nl(), u"</graph>"]
        out += [self.nl(), u"</graphml>"]
        e = self.style.get("enc", "utf-8")
        head = u'<?xml version="1.0" encoding="%s"?>\n' % e
        if e == "utf-8" and self.r.random() < 0.3:
            head = u""
        return (head + u"".join(out)).encode(e)


def ats(d, skip=()):
    return sorted([drv.s(k), drv.s(v)] for k, v in d.items() if k not in skip)


class H(object):
    def __init__(self, params):
        self.dir = tempfile.mkdtemp()

    def close(self):
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        os.rmdir(self.dir)

    def step(self, op):
        ev = {"op": op["op"], "exc": "", "ids": [], "obs": []}
        data = Writer(op.get("seed", 0), op.get("style", {})).doc(op["doc"])
        fn = os.path.join(self.dir, "gb.xml")
        f = open(fn, "wb")
        f.write(data)
        f.close()
        try:
            self.keep = []
            m = getattr(self, "do_" + op["how"])(op, data, fn)
            ev["ids"] = [drv.s(k) for k in m.keys()]
            ev["obs"] = [self.observe(k, g) for k, g in m.items()]
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["tb"] = traceback.format_exc()[-600:]
        return ev

    def want(self, op):
        return dict.fromkeys(op["wanted"]) if op["sparse"] else None

    def do_file(self, op, data, fn):
        return GraphmlParser().parse_file(fn, self.want(op), sparse=op["sparse"])

    def do_fobj(self, op, data, fn):
        f = open(fn, "rb")
        try:
            return GraphmlParser().parse_file(f, self.want(op), sparse=op["sparse"])
        finally:
            f.close()

    def do_dict(self, op, data, fn):
        d = self.want(op)
        if d is None: d = {}
        GraphmlParser().parse_file(fn, d, sparse=op["sparse"])
        return d

    def do_string(self, op, data, fn):
        p = GraphmlParser()
        m = p.parse_string(data, self.want(op), sparse=op["sparse"])
        p.close()
        return m

    def do_chunks(self, op, data, fn):
        r = random.Random(op.get("seed", 0))
        p = GraphmlParser()
        d = self.want(op)
        m = {} if d is None else d
        k = 0
        while k < len(data):
            n = r.choice([1, 2, 7, 30, 200])
            m = p.parse_string(data[k:k + n], d, sparse=op["sparse"])
            k += n
        p.close()
        return m

    def do_bank(self, op, data, fn):
        if op["sparse"]:
            b = SparseGraphBank(fn, "graphml")
            pairs = []
            for k in op["wanted"]:
                stub = b.get_graph_stub(k)
                p = GraphMapping(Pair(b, b), Pair(stub, stub))
                stub.add_client(p)
                pairs.append((k, p))
            stub = p = None
            b.load()
            m = {}
            for k, p in pairs:
                g = p.get_graphs()
                m[k] = b.get_graph(k) if g.source is g.target is b.get_graph(k) else None
            return m
        b = GraphBank(fn, "GraphML" if op.get("seed", 0) % 2 else "graphml")
        b.load()
        m = dict((k, b.get_graph(k)) for k in [g.id for g in b])
        if len(m) != len(b):
            m["?"] = None
        return m

    def observe(self, k, g):
        if not isinstance(g, DaesoGraph):
            return {"id": "?not a graph", "nodes": []}
        return {"id": drv.s(g.id) if g.id == k else u"?id and key differ",
                "nodes": [drv.s(n) for n in g.nodes()],
                "na": [{"n": drv.s(n), "at": ats(a, ("tokens",))} for n, a in g.nodes(data=True)],
                "tk": [{"n": drv.s(n), "t": [drv.s(t) for t in g.get_node_tokens(n) or []]} for n in g.nodes()],
                "edges": [[drv.s(u), drv.s(v), ats(a)] for u, v, a in g.edges(data=True)],
                "ga": ats(g.graph), "root": drv.s(g.root), "toks": [drv.s(t) for t in g.tokens or []]}


drv.main(H)
