# -*- coding: utf-8 -*-
"""Drive reading, writing and purging of corpora on a scratch tree (C06, C07, C08)."""
import drv, warnings, os, copy, shutil, tempfile, cStringIO
import xml.etree.cElementTree as et
from daeso.pair import Pair
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL, LOAD_SPARSE, LOAD_NONE
from daeso.pgc.graphpair import GraphPair
from daeso.gb.graphbank import GraphBank, SparseGraphBank
from daeso.gb.graphstub import GraphStub
from daeso.graph.daesograph import DaesoGraph
from daeso.exception import DaesoWarning
from metas import make_meta, meta_name

MODES = dict(all=LOAD_ALL, sparse=LOAD_SPARSE, none=LOAD_NONE)
KEYS = '<key id="tokens" for="all" attr.name="tokens" attr.type="string"/>' \
       '<key id="label" for="node" attr.name="label" attr.type="string"/>'


class H(object):
    def __init__(self, params):
        self.p = params
        self.root = os.path.realpath(tempfile.mkdtemp(dir=os.getcwd()))
        self.home = os.getcwd()
        self.cor = {}
        self.serial = {}
        self.keep = []

    def close(self):
        os.chdir(self.home)
        if self.root.startswith(self.home):
            shutil.rmtree(self.root)

    # ---- paths
    def real(self, comps):
        return os.path.join(self.root, *comps) if comps else self.root

    def arg(self, comps, cwd):
        """a path as a caller may give it: absolute, or relative to the current directory"""
        if cwd is None:
            return self.enc(self.real(comps))
        k = 0
        while k < len(cwd) and k < len(comps) - 1 and cwd[k] == comps[k]:
            k += 1
        return self.enc("/".join([".."] * (len(cwd) - k) + comps[k:]))

    def enc(self, path):
        """file names are byte strings (as on the command line) or unicode strings"""
        return path.encode("utf-8") if self.p.get("bytes") else path

    def comps(self, path):
        path = drv.s(path)
        if path == self.root: return []
        if path.startswith(self.root + "/"):
            return path[len(self.root) + 1:].split("/")
        return ["?", path]

    def mkdir(self, comps):
        d = self.real(comps)
        if not os.path.isdir(d):
            os.makedirs(d)

    # ---- file system
    def do_bank(self, op):
        self.mkdir(op["path"][:-1])
        f = open(self.real(op["path"]), "w")
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n<graphml>' + KEYS)
        for g in op["gs"]:
            f.write('<graph id="%s" edgedefault="directed"><data key="tokens">%s:%s</data>' % (g, op.get("tok", op["ino"]), g))
            for n in ("n1", "n2", "n3"):
                f.write('<node id="%s"><data key="label">x</data><data key="tokens">%s</data></node>' % (n, n))
            f.write('<edge source="n1" target="n2"/></graph>')
        f.write('</graphml>\n')
        f.close()

    def do_link(self, op):
        self.mkdir(op["path"][:-1])
        os.link(self.real(op["from"]), self.real(op["path"]))

    def do_symlink(self, op):
        self.mkdir(op["path"][:-1])
        if op.get("mkdir"):
            self.mkdir(op["to"])
        os.symlink(self.real(op["to"]), self.real(op["path"]))

    def do_rm(self, op): os.remove(self.real(op["path"]))

    def do_move(self, op):
        self.mkdir(op["to"][:-1])
        os.rename(self.real(op["from"]), self.real(op["to"]))

    def do_doc(self, op):
        d = op["doc"]
        w = u"\n   " if op.get("ws") else u""
        r = et.Element("parallel_graph_corpus")
        if d["meta"] != "none":
            r.append(make_meta("corpus_meta_data", d["meta"]))
        b = et.SubElement(r, "graphbanks")
        if op.get("oldfmt"):
            b.set("format", "graphml")
        for f in d["files"]:
            e = et.SubElement(b, "file", id=f["id"])
            if not op.get("oldfmt"):
                e.set("format", op.get("fmt", "graphml"))
            e.text = w + (self.real(f["path"]) if f["abs"] else "/".join(f["path"])) + w
        n = et.SubElement(r, "node_relations")
        for x in op.get("rels", d["rels"]):
            et.SubElement(n, "relation").text = w + x + w
        a = et.SubElement(r, "aligned_graphs")
        for k, x in enumerate(d["pairs"]):
            e = et.SubElement(a, "graph_pair", n=str(k + 1), from_bank_id=x["fb"], to_bank_id=x["tb"],
                              from_graph_id=x["sg"], to_graph_id=x["tg"])
            for k in e.keys():
                if e.get(k) == "None":      # an attribute is missing
                    del e.attrib[k]
            if x["meta"] != "m0":
                e.append(make_meta("graph_meta_data", x["meta"]))
            for t in x["al"]:
                et.SubElement(e, "node_pair", from_node_id=t[0], to_node_id=t[1], relation=t[2])
        for k, j in enumerate(op.get("junk", [])):
            # an element that the format does not know
            p = [r, b, n, a] + a.findall("graph_pair")
            p = p[k % len(p)]
            x = et.Element(j)
            x.text = u"n1"
            p.insert(k % (len(p) + 1), x)
        self.mkdir(op["path"][:-1])
        f = open(self.real(op["path"]), "wb")
        f.write('<?xml version="1.0" encoding="utf-8"?>\n')
        et.ElementTree(r).write(f, "utf-8")
        f.close()

    # ---- corpora
    def bank(self, comps, share):
        if share and tuple(comps) in self.shared:
            return self.shared[tuple(comps)]
        # the same file may be spelled through a symbolic link
        via = dict(("/".join(a), v) for a, v in self.vias)
        n = self.nbank = self.nbank + 1
        b = SparseGraphBank(self.enc(self.real(via.get("/".join(comps), comps) if n % 2 else comps)), "graphml")
        self.shared[tuple(comps)] = b
        return b

    def do_mk(self, op):
        self.shared = {}
        self.vias, self.nbank = op.get("vias", []), 0
        c = op["cor"]
        ps = []
        for x in c["pairs"]:
            g = []
            for i, t, k in ((x["sg"], x["st"], x["sk"]), (x["tg"], x["tt"], x["tk"])):
                if k == "stub":
                    g.append(GraphStub(i))
                else:
                    d = DaesoGraph(id=i)
                    d.set_graph_token_string(t)
                    g.append(d)
            kw = {}
            if x["meta"] != "m0":
                kw["meta_data"] = make_meta("graph_meta_data", x["meta"])
            p = GraphPair(Pair(self.bank(x["sb"], op.get("share")), self.bank(x["tb"], op.get("share"))), Pair(*g), **kw)
            for s, t, r in x["al"]:
                p.add_align(Pair(s, t), r)
            ps.append(p)
        self.cor[op["c"]] = ParallelGraphCorpus(
            graph_pairs=ps, relations=list(op.get("rels", c["rels"])),
            meta_data=None if c["meta"] == "none" else make_meta("corpus_meta_data", c["meta"]))

    def do_write(self, op):
        c = self.cor[op["c"]]
        cwd = op.get("cwd")
        if cwd is not None:
            self.mkdir(cwd)
            os.chdir(self.real(cwd))
        self.mkdir(op["path"][:-1])
        out = self.arg(op.get("via") or op["path"], cwd)
        kw = dict(abs_path=bool(op["abs"]), pprint=bool(op.get("pprint")))
        try:
            if op["how"] == "name":
                c.write(out, **kw)
            elif op["how"] == "file":
                f = open(out, "wb")
                c.write(f, **kw)
                f.close()
            else:
                b = cStringIO.StringIO()
                c.write(b, **kw)
                if not b.getvalue().startswith('<?xml'):
                    raise RuntimeError("no xml declaration")
                f = open(out, "wb")
                f.write(b.getvalue())
                f.close()
        finally:
            os.chdir(self.home)
        return {"doc": self.parse_doc(self.real(op["path"]))}

    def parse_doc(self, fn):
        r = et.parse(fn).getroot()
        if r.tag != "parallel_graph_corpus":
            raise RuntimeError("not a corpus document")
        m = r.find("corpus_meta_data")
        files = []
        for e in r.find("graphbanks").findall("file"):
            t = e.text.strip()
            files.append({"id": drv.s(e.get("id")), "abs": t.startswith("/"),
                          "path": self.comps(t) if t.startswith("/") else drv.s(t).replace(self.root, "%ROOT%").split("/"),
                          "fmt": drv.s(e.get("format"))})
        pairs = []
        for e in r.find("aligned_graphs").findall("graph_pair"):
            pairs.append({"fb": drv.s(e.get("from_bank_id")), "tb": drv.s(e.get("to_bank_id")),
                          "sg": drv.s(e.get("from_graph_id")), "tg": drv.s(e.get("to_graph_id")),
                          "al": sorted([drv.s(x.get("from_node_id")), drv.s(x.get("to_node_id")), drv.s(x.get("relation"))]
                                       for x in e.findall("node_pair")),
                          "meta": meta_name(e.find("graph_meta_data"), "graph_meta_data")})
        return {"rels": [drv.s(x.text).strip() for x in r.find("node_relations").findall("relation")],
                "meta": "none" if m is None else meta_name(m, "corpus_meta_data"),
                "files": files, "pairs": pairs}

    def do_read(self, op):
        cwd = op.get("cwd")
        if cwd is not None:
            self.mkdir(cwd)
            os.chdir(self.real(cwd))
        inf = self.arg(op.get("via") or op["path"], cwd)
        mode = MODES[op["mode"]]
        ws = warnings.catch_warnings(record=True)
        log = ws.__enter__()
        warnings.simplefilter("always")
        try:
            c = ParallelGraphCorpus()
            if op["how"] == "buffer":
                f = open(inf)
                b = cStringIO.StringIO(f.read())
                f.close()
                c.read(b, graph_loading=mode, relax_gb_paths=bool(op["relax"]))
            elif op["how"] == "file":
                f = open(inf)
                c.read(f, graph_loading=mode, relax_gb_paths=bool(op["relax"]))
                f.close()
            elif op["how"] == "ctor" and not op["relax"]:
                c = ParallelGraphCorpus(inf=inf, graph_loading=mode)
            else:
                c.read(inf, graph_loading=mode, relax_gb_paths=bool(op["relax"]))
        finally:
            ws.__exit__(None, None, None)
            os.chdir(self.home)
        self.cor[op["c"]] = c
        return {"warned": len([w for w in log if issubclass(w.category, DaesoWarning)])}

    def do_iadd(self, op):
        c = self.cor[op["c"]]
        c += self.cor[op["d"]]
        self.cor[op["c"]] = c

    def do_dcopy(self, op): self.cor[op["c"]] = copy.deepcopy(self.cor[op["d"]])
    def do_slice(self, op): self.cor[op["c"]] = self.cor[op["d"]][op["i"]:op["j"]]

    def do_purge(self, op):
        c = self.cor[op["c"]]
        if "i" in op:
            c.purge(c[op["i"] - 1])
        else:
            c.purge()

    def do_align(self, op):
        self.cor[op["c"]][op["i"] - 1].add_align(Pair(op["s"], op["t"]), op["r"])

    def do_pmeta(self, op):
        self.cor[op["c"]][op["i"] - 1].set_meta_data(make_meta("graph_meta_data", op["tok"]))

    def do_cmeta(self, op):
        self.cor[op["c"]].set_meta_data(None if op["tok"] == "none" else make_meta("corpus_meta_data", op["tok"]))

    def do_annot(self, op):
        if op["app"]:
            self.cor[op["c"]].set_annotator(op["who"])
        else:
            self.cor[op["c"]].set_annotator(op["who"], append=False)

    def do_look(self, op): pass

    # ---- observation
    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            r = getattr(self, "do_" + op["op"])(op)
            if r:
                ev.update(r)
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["etb"] = traceback.format_exc()[-500:]
        if op.get("q_", 1):
            ev["obs"] = [self.observe(c) for c in sorted(self.cor)]
        if op.get("eqs"):
            ev["eqs"] = [{"c": c, "d": d, "eq": bool(self.cor[c] == self.cor[d]), "ne": bool(self.cor[c] != self.cor[d])}
                         for c in sorted(self.cor) for d in sorted(self.cor)]
        return ev

    def oid(self, x):
        self.keep.append(x)
        return self.serial.setdefault(id(x), len(self.serial) + 1)

    def kind(self, g):
        if isinstance(g, GraphStub): return "stub"
        if isinstance(g, DaesoGraph): return "graph"
        return "?" + type(g).__name__

    def tok(self, g):
        return drv.s(g.get_graph_token_string()) if isinstance(g, DaesoGraph) else ""

    def observe(self, c):
        x = self.cor[c]
        md = x.get_meta_data()
        pairs = []
        for p in x:
            b, g = p.get_banks(), p.get_graphs()
            pairs.append({"po": self.oid(p), "sb": self.comps(b.source.get_file_path()), "tb": self.comps(b.target.get_file_path()),
                          "sbo": self.oid(b.source), "tbo": self.oid(b.target),
                          "sg": drv.s(g.source.id), "tg": drv.s(g.target.id),
                          "sk": self.kind(g.source), "tk": self.kind(g.target),
                          "st": self.tok(g.source), "tt": self.tok(g.target),
                          "al": sorted([drv.s(n.source), drv.s(n.target), drv.s(r)] for n, r in p.alignments()),
                          "meta": meta_name(p.get_meta_data(), "graph_meta_data")})
        return {"name": c, "rels": [drv.s(r) for r in x.get_relations()],
                "ann": drv.s(x.get_annotator() or ""),
                "meta": "none" if md is None else meta_name(md, "corpus_meta_data"), "pairs": pairs}


if __name__ == "__main__":
    drv.main(H)
