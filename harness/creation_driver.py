# -*- coding: utf-8 -*-
"""Drive pgc_from_ptc and pgc_extract_phrases on scratch files (C31)."""
import sys
from files import bank_file, xml_tree, Out, run_script
OUT = Out()
sys.stdout = OUT
import drv, os, tempfile, shutil, daeso, codecs
import xml.etree.cElementTree as et

BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(daeso.__file__)))), "bin")


class H(object):
    def __init__(self, params):
        self.home = os.getcwd()
        self.p = params
        self.w = os.path.realpath(tempfile.mkdtemp(dir=self.home))
        os.chdir(self.w)
        where = params.get("where", {})
        for n, d in params["docs"].items():
            xml_tree(where[n][1], [dict(e, text="", tail="") for e in d["f"]])
            xml_tree(where[n][2], [dict(e, text="", tail="") for e in d["t"]])
            self.write_doc(n, d["links"])
        self.links = dict((n, list(d["links"])) for n, d in params["docs"].items())
        for n, b in params["banks"].items():
            bank_file(n, [dict(id=g["id"], tokens="x", edges=[], nodes=[[x["id"], "l", " ".join(x["w"])] for x in g["nodes"]]) for g in b])
        if not os.path.isdir("out"):
            os.mkdir("out")

    def write_doc(self, n, links):
        """the parallel text document; where: file, source text, target text, names of the texts as written"""
        fn, f, t, wf, wt = self.p["where"][n]
        r = et.Element("hitaext")
        for side, w in ("from", wf), ("to", wt):
            x = et.SubElement(r, side)
            et.SubElement(x, "filename").text = w.replace("%R", drv.s(self.w))
            et.SubElement(et.SubElement(x, "render"), "elements")
        a = et.SubElement(r, "alignment", method="id")
        for l in links:
            et.SubElement(a, "link", from_tag=l["ft"], from_id=l["fi"], to_tag=l["tt"], to_id=l["ti"])
        d = os.path.dirname(fn)
        if d and not os.path.isdir(d):
            os.makedirs(d)
        g = open(fn, "wb")
        et.ElementTree(r).write(g, "utf-8")
        g.close()

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.w)

    def snap(self):
        res = {}
        for d, ds, fs in os.walk(self.w):
            if d == os.path.join(self.w, "out"):
                continue
            for f in fs:
                g = open(os.path.join(d, f), "rb")
                res[os.path.join(d, f)] = g.read()
                g.close()
        return res

    def arg(self, p, how):
        if how == "abs":
            return os.path.join(drv.s(self.w), p)
        return os.path.join("..", p)

    def script(self, name, args):
        ev = {"code": 0}
        err, sys.stderr = sys.stderr, Out()
        os.chdir(os.path.join(self.w, "out"))
        OUT.start()
        try:
            try:
                ev["code"] = run_script(os.path.join(BIN, name), args)
            except Exception:
                import traceback
                ev["code"], ev["why"] = 1, traceback.format_exc()[-400:]
        finally:
            text = OUT.stop()
            sys.stderr = err
            os.chdir(self.w)
        return ev, text

    def outs(self):
        res = []
        for fn in sorted(os.listdir("out")):
            r = et.parse(os.path.join("out", fn)).getroot()
            files = {}
            for e in r.findall("graphbanks/file"):
                p = os.path.realpath(os.path.join(drv.s(self.w), "out", drv.s(e.text)))
                files[e.get("id")] = drv.s(p).replace(drv.s(self.w) + "/", "")
            res.append({"name": drv.s(fn), "rels": [drv.s(e.text) for e in r.findall("node_relations/relation")],
                        "pairs": [{"sb": files.get(p.get("from_bank_id"), "?"), "tb": files.get(p.get("to_bank_id"), "?"),
                                   "sg": drv.s(p.get("from_graph_id")), "tg": drv.s(p.get("to_graph_id")),
                                   "al": [[drv.s(e.get(k)) for k in ("from_node_id", "to_node_id", "relation")] for e in p.findall("node_pair")]}
                                  for p in r.findall("aligned_graphs/graph_pair")]})
        return res

    def step(self, op):
        return getattr(self, "do_" + op["op"])(op)

    def do_link(self, op):
        self.links[op["doc"]].append(op["l"])
        self.write_doc(op["doc"], self.links[op["doc"]])

    def do_create(self, op):
        how = op.get("how", "rel")
        before = self.snap()
        ds = op["docs"]
        p = [self.arg(self.p["where"][x["doc"]][0], how) for x in ds]
        sb = ([self.arg(x["sb"], how) for x in ds] * 3)[:op["nf"]]
        tb = ([self.arg(x["tb"], how) for x in ds] * 3)[:op["nt"]]
        if op.get("api"):
            ev = {"code": 0}
            from daeso.pgc.creation import pgc_from_ptc
            from daeso.pair import Pair
            os.chdir("out")
            try:
                for x, a, b, c in zip(ds, p, sb, tb):
                    kw = {}
                    if op["max"] != 99999:
                        kw["max_token_len"] = op["max"]
                    if op["min"]:
                        kw["min_token_diff"] = op["min"]
                    try:
                        g = pgc_from_ptc(a, b, c, focus_tags=Pair(op["ft"], op["tt"]), graph_formats=Pair("graphml", "graphml"),
                                         relations=op["rels"], **kw)
                        g.write(outf=x["out"])
                    except Exception:
                        import traceback
                        ev["code"], ev["why"] = 1, traceback.format_exc()[-400:]
                        break
            finally:
                os.chdir(self.w)
        else:
            a = ["-p"] + p + ["-s"] + sb + ["-t"] + tb + ["--source-format", "graphml", "--target-format", "graphml"]
            if op["ft"] != "s" or op.get("long"):
                a += ["--source-tag", op["ft"]]
            if op["tt"] != "s" or op.get("long"):
                a += ["--target-tag", op["tt"]]
            if op["max"] != 99999:
                a += ["--max-token-len", op["max"]]
            if op["min"] or op.get("long"):
                a += ["--min-token-diff", op["min"]]
            if not op.get("defrels"):
                a += ["--relations"] + op["rels"]
            ev, text = self.script("pgc_from_ptc.py", a)
        ev["same"] = self.snap() == before
        ev["out"] = self.outs()
        return ev

    def do_align(self, op):
        fn = os.path.join("out", op["c"])
        t = et.parse(fn)
        e = t.getroot().findall("aligned_graphs/graph_pair")[op["k"] - 1]
        et.SubElement(e, "node_pair", from_node_id=op["a"][0], to_node_id=op["a"][1], relation=op["a"][2])
        f = open(fn, "wb")
        f.write('<?xml version="1.0" encoding="utf-8"?>\n')
        t.write(f, "utf-8")
        f.close()

    def do_extract(self, op):
        before = self.snap()
        a = [self.arg("out/" + c, op["how"]) if op.get("how") else c for c in op["cs"]]
        if op["delim"] != "\t":
            a = ["-d", op["delim"]] + a
        ev, text = self.script("pgc_extract_phrases.py", a + ["-V"] * int(op["verbose"]))
        # bank paths are absolute
        ls = text.replace(drv.s(self.w) + "/", "").split("\n")
        ev["lines"] = ls[:-1]
        if ls[-1] != "":
            ev["lines"].append("?" + ls[-1])
        ev["same"] = self.snap() == before
        return ev


drv.main(H)
