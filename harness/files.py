# -*- coding: utf-8 -*-
"""Graphbank and corpus files for the drivers, written without the framework."""
import os, codecs
import xml.etree.cElementTree as et

KEYS = (u'<key id="tokens" for="all" attr.name="tokens" attr.type="string"/>'
        u'<key id="label" for="node" attr.name="label" attr.type="string"/>'
        u'<key id="root" for="graph" attr.name="root" attr.type="string"/>')


def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def bank_file(path, graphs, keys=(), fmt="graphml"):
    """graphs: dicts id, tokens, nodes [[id, label, tokens, {attr: value}?]...], edges [[u, v]...], root?"""
    d = os.path.dirname(path)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    f = codecs.open(path, "w", "utf-8")
    f.write(u'<?xml version="1.0" encoding="UTF-8"?>\n<graphml>' + KEYS)
    for k in keys:
        f.write(u'<key id="%s" for="node" attr.name="%s" attr.type="string"/>' % (k, k))
    for g in graphs:
        f.write(u'<graph id="%s" edgedefault="directed"><data key="tokens">%s</data>' % (esc(g["id"]), esc(g["tokens"])))
        if g.get("root"):
            f.write(u'<data key="root">%s</data>' % esc(g["root"]))
        for n in g["nodes"]:
            f.write(u'<node id="%s"><data key="label">%s</data><data key="tokens">%s</data>' % tuple(esc(x) for x in n[:3]))
            for k, v in (n[3].items() if len(n) > 3 else ()):
                f.write(u'<data key="%s">%s</data>' % (k, esc(v)))
            f.write(u'</node>')
        for u, v in g["edges"]:
            f.write(u'<edge source="%s" target="%s"/>' % (esc(u), esc(v)))
        f.write(u'</graph>')
    f.write(u'</graphml>\n')
    f.close()


def corpus_file(path, banks, rels, pairs):
    """banks: [[id, path as written]...]; pairs: dicts fb, tb, sg, tg, al [[s, t, r]...]"""
    d = os.path.dirname(path)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    r = et.Element("parallel_graph_corpus")
    b = et.SubElement(r, "graphbanks")
    for i, p in banks:
        et.SubElement(b, "file", id=i, format="graphml").text = p
    n = et.SubElement(r, "node_relations")
    for x in rels:
        et.SubElement(n, "relation").text = x
    a = et.SubElement(r, "aligned_graphs")
    for k, x in enumerate(pairs):
        e = et.SubElement(a, "graph_pair", n=str(k + 1), from_bank_id=x["fb"], to_bank_id=x["tb"],
                          from_graph_id=x["sg"], to_graph_id=x["tg"])
        for t in x["al"]:
            et.SubElement(e, "node_pair", from_node_id=t[0], to_node_id=t[1], relation=t[2])
    f = open(path, "wb")
    f.write('<?xml version="1.0" encoding="utf-8"?>\n')
    et.ElementTree(r).write(f, "utf-8")
    f.close()


def xml_tree(path, tree):
    """tree: elements in document order [tag, depth, id, text, tail, raw?]; raw: text and tail as written"""
    els = []
    for n in tree:
        e = et.Element(n["tag"])
        if n.get("id"):
            e.set("id", n["id"])
        raw = n.get("raw") or [n["text"], n["tail"]]
        e.text, e.tail = raw[0] or None, raw[1] or None
        del els[n["depth"]:]
        if els:
            els[-1].append(e)
        else:
            root = e
        els.append(e)
    d = os.path.dirname(path)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    f = open(path, "wb")
    f.write('<?xml version="1.0" encoding="utf-8"?>\n')
    et.ElementTree(root).write(f, "utf-8")
    f.close()


class Out(object):
    """stands in for sys.stdout from before the framework is imported"""
    def __init__(self):
        self.buf = []
        self.on = False
        self.softspace = 0
        self.enc = None

    def write(self, s):
        if self.on:
            if isinstance(s, unicode):
                # with an encoding given, the output is to be in that encoding: bytes (or ASCII characters)
                self.buf.append(s.encode("ascii").decode("ascii") if self.enc else s)
            else:
                self.buf.append(s.decode(self.enc or "utf-8", "replace"))

    def flush(self):
        pass

    def start(self, enc=None):
        import sys
        self.enc = enc
        self.buf, self.on, self.softspace = [], True, 0
        self.old, sys.stdout = sys.stdout, self

    def stop(self):
        import sys
        self.on = False
        sys.stdout = self.old
        return u"".join(self.buf)


def run_script(path, argv):
    """run a command line script in this process; returns the exit code"""
    import sys
    old = sys.argv
    sys.argv = [path] + [a.encode("utf-8") if isinstance(a, unicode) else str(a) for a in argv]
    try:
        try:
            execfile(path, {"__name__": "__main__", "__file__": path})
            return 0
        except SystemExit, e:
            return e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv = old
