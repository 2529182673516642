# -*- coding: utf-8 -*-
"""Drive automatic text alignment (C20)."""
import sys, types
from files import xml_tree, Out
OUT = Out()
sys.stdout = OUT
import drv, os, tempfile, shutil, codecs

# the Dutch resources are not part of the framework
PUNCT = u".,!?;:()-'"


def remove_stopwords(tokens, ignore_case=False, remove_punc=False):
    return [t for t in tokens if not (t in ("de", "het", "een") or ignore_case and t.lower() in ("de", "het", "een")
                                      or remove_punc and t in PUNCT)]


for name in ("daeso_nl", "daeso_nl.string", "daeso_nl.string.stopword"):
    sys.modules[name] = types.ModuleType(name)
sys.modules["daeso_nl"].string = sys.modules["daeso_nl.string"]
sys.modules["daeso_nl.string"].stopword = sys.modules["daeso_nl.string.stopword"]
sys.modules["daeso_nl.string.stopword"].remove_stopwords = remove_stopwords

import daeso.ptc.textalign as ta
from daeso.ptc.document import HitaextDoc
from daeso.pair import Pair
import xml.etree.cElementTree as et

TERMS = {"word": ta.word_n_gram_factory, "char": ta.char_n_gram_factory, "preword": ta.preproc_word_n_gram_factory,
         "stopword": ta.preproc_stopword_word_n_gram_factory, "prechar": ta.preproc_char_n_gram_factory}
SIMS = {"jaccard": ta.jaccard_sim, "dice": ta.dice_sim, "tanimoto": ta.tanimoto_sim, "cosine": ta.cosine_sim, "type_match": ta.type_match_sim,
        "overlap_min": ta.overlap_min_sim, "overlap_max": ta.overlap_max_sim, "weighted": ta.weighted_cosine_sim}


def nth(t):
    cnt, res = {}, []
    for x in t:
        cnt[x["tag"]] = cnt.get(x["tag"], 0) + 1
        res.append(cnt[x["tag"]])
    return res


class H(object):
    def __init__(self, params):
        self.home = os.getcwd()
        self.w = tempfile.mkdtemp(dir=self.home)
        os.chdir(self.w)
        self.p = params
        self.t = [params["from"], params["to"]]
        xml_tree("f.xml", self.t[0])
        xml_tree("t.xml", self.t[1])
        self.n = [nth(x) for x in self.t]
        self.byn = [dict(((x["tag"], n), k + 1) for k, (x, n) in enumerate(zip(t, nn))) for t, nn in zip(self.t, self.n)]
        self.byid = [dict(((x["tag"], x["id"]), k + 1) for k, x in enumerate(t)) for t in self.t]
        self.doc = self.trees = None

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.w)

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            getattr(self, "do_" + op["op"])(op, ev)
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["tb"] = traceback.format_exc()[-700:]
        return ev

    def do_links(self, op, ev):
        r = et.Element("hitaext")
        for side in ("from", "to"):
            e = et.SubElement(r, side)
            et.SubElement(e, "filename").text = "%s.xml" % side[0]
            et.SubElement(et.SubElement(e, "render"), "elements")
        a = et.SubElement(r, "alignment")
        self.how = op["how"]
        if op["how"] != "none":
            a.set("method", op["how"])
        for i, j in op["links"]:
            x, y = self.t[0][i - 1], self.t[1][j - 1]
            if op["how"] == "id":
                et.SubElement(a, "link", from_tag=x["tag"], from_id=x["id"], to_tag=y["tag"], to_id=y["id"])
            else:
                et.SubElement(a, "link", from_tag=x["tag"], from_n=str(self.n[0][i - 1]), to_tag=y["tag"], to_n=str(self.n[1][j - 1]))
        f = open("c.ptc", "wb")
        et.ElementTree(r).write(f, "utf-8")
        f.close()
        self.doc = HitaextDoc(file="c.ptc")

    def do_trees(self, op, ev):
        self.trees = Pair(ta.get_doc_tree(self.doc, "from", self.p["ignore"][0]), ta.get_doc_tree(self.doc, "to", self.p["ignore"][1]))
        self.doc.inject_alignments(self.trees.source, self.trees.target)
        ev["links"] = []

    def pos(self, side, el):
        return self.byn[side].get((drv.s(el.tag), int(el.get("_n"))), 0)

    def score(self, q):
        return [[self.pos(0, p.source), self.pos(1, p.target), int(round(s * 10000))] for s, p in q]

    def do_align(self, op, ev):
        calls = []
        th = op["th"] / 100.0
        flt = {"none": None, "threshold": ta.threshold_filter_factory(th), "nocross": ta.no_cross_filter_factory(th)}[op["filter"]]
        run = flt or ta.no_filter

        def record(scores):
            c = {"cands": self.score(scores)}
            r = run(scores)
            c["kept"] = self.score(r)
            calls.append(c)
            return r
        kw = {}
        if op["terms"]["kind"] == "text":
            kw["term_func"] = lambda x: [x]
        elif not op["dflt"]:
            kw["term_func"] = TERMS[op["terms"]["kind"]](op["terms"]["n"])
        if op["sim"] == "table":
            tab = dict(((a, b), c) for a, b, c in op["table"])
            kw["sim_func"] = lambda a, b, *w: tab[a[0], b[0]] / 100.0
        elif op["sim"] != "equals":
            kw["sim_func"] = SIMS[op["sim"]]
        if op["sim"] == "weighted":
            kw["weight_func"] = ta.tf_idf_indicator_weight
        focus = Pair(*[str(x) for x in op["focus"]])
        scope = Pair([str(x) for x in op["scope"][0]], [str(x) for x in op["scope"][1]]) if op["scope"][0] + op["scope"][1] else None
        al = ta.TextAligner(focus, scope, Pair(self.p["ignore"][0], self.p["ignore"][1]), filter_func=record, **kw)
        args = {}
        if op["given"]:
            args["doc_trees"] = self.trees
        if not (op["clear"] and op["dflt"]):
            args["clear"] = op["clear"]
        al.align_corpus(self.doc, **args)
        ev["calls"] = calls
        ev["links"] = []
        ev["how"] = self.how
        ev["method"] = self.doc.get_alignment_method() or "none"
        for l in self.doc.get_alignments():
            r = []
            for k, side in enumerate(("from", "to")):
                if self.how == "id":
                    r.append(self.byid[k].get((l.get(side + "_tag"), l.get(side + "_id")), 0))
                else:
                    r.append(self.byn[k].get((l.get(side + "_tag"), int(l.get(side + "_n"))), 0))
            ev["links"].append(r)


drv.main(H)
