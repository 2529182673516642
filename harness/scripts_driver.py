# -*- coding: utf-8 -*-
"""Drive the command line scripts that process corpora on a scratch tree (C30)."""
import sys
from files import Out, run_script
OUT = Out()
sys.stdout = OUT
import drv, os, shutil, zipfile, daeso
import xml.etree.cElementTree as et
from store_driver import H as Base

BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(daeso.__file__)))), "bin")
OLD = 1000000000
ROOT = "%ROOT%"


class H(Base):
    # ---- running
    def script(self, name, args, cwd, keep=None):
        """exit code, and what was printed"""
        se, sys.stderr = sys.stderr, Out()
        os.chdir(self.real(cwd) if cwd is not None else self.home)
        ev = {"code": 0}
        OUT.start()
        try:
            try:
                ev["code"] = run_script(os.path.join(BIN, name), args)
            except Exception:
                import traceback
                ev["code"], ev["why"] = 1, traceback.format_exc()[-400:]
        finally:
            text = OUT.stop()
            os.chdir(self.home)
            sys.stderr = se
        return ev, text

    def isdoc(self, fn):
        if fn.endswith(".zip") or not os.path.isfile(fn):
            return False
        f = open(fn, "rb")
        t = f.read(400)
        f.close()
        return "<parallel_graph_corpus" in t

    def walk(self):
        for d, ds, fs in os.walk(self.root):
            for f in fs:
                fn = os.path.join(d, f)
                if not os.path.islink(fn):
                    yield fn

    def age(self):
        self.before = set()
        for fn in self.walk():
            os.utime(fn, (OLD, OLD))
            self.before.add(fn)

    def wrote(self, but=None):
        """documents and other files written since age()"""
        docs, other = [], []
        for fn in sorted(self.walk()):
            if fn in self.before and abs(os.stat(fn).st_mtime - OLD) < 5:
                continue
            if but and fn.startswith(but):
                continue
            try:
                d = self.parse_doc(fn)
                docs.append({"path": self.comps(fn), "doc": d})
            except Exception:
                other.append(self.comps(fn))
        gone = sorted(self.comps(fn) for fn in self.before if not os.path.isfile(fn))
        return {"wrote": docs, "other": other, "gone": gone}

    def arg(self, comps, cwd):
        return Base.arg(self, comps, cwd) if cwd is not None else self.real(comps)

    def do_junk(self, op):
        self.mkdir(op["path"][:-1])
        f = open(self.real(op["path"]), "w")
        f.write("This is no corpus < at all\n")
        f.close()

    def step(self, op):
        if op["op"] in ("split", "join", "chdir", "zip") and \
           not all(os.path.exists(self.real(p)) for p in op.get("paths") or [op["path"]]):
            return {"op": "look", "exc": ""}
        return Base.step(self, op)

    def do_split(self, op):
        self.age()
        a = [self.arg(op["path"], op.get("cwd"))]
        if op["size"]:
            a += [op.get("long") and "--size" or "-s", op["size"]]
        if op["parts"] != 2 or op.get("long"):
            a += [op.get("long") and "--parts" or "-p", op["parts"]]
        if op.get("pprint"):
            a += ["-f"]
        if op.get("V"):
            a += ["-V"]
        ev, text = self.script("pgc_split.py", a, op.get("cwd"))
        ev.update(self.wrote())
        self.parts = [w["path"] for w in ev["wrote"]]
        return ev

    def do_bigsplit(self, op):
        """split a corpus whose pairs know their position; the parts in file-name order"""
        self.mkdir(["big"])
        fn = self.real(["big", "o.pgc"])
        f = open(fn, "w")
        f.write('<?xml version="1.0" encoding="utf-8"?>\n<parallel_graph_corpus><graphbanks><file id="1" format="graphml">'
                'b.xml</file></graphbanks><node_relations/><aligned_graphs>')
        for k in range(op["n"]):
            f.write('<graph_pair from_bank_id="1" to_bank_id="1" from_graph_id="g1" to_graph_id="g1"><graph_meta_data>'
                    '<k>%d</k></graph_meta_data></graph_pair>' % (k + 1))
        f.write('</aligned_graphs></parallel_graph_corpus>\n')
        f.close()
        self.do_bank(dict(path=["big", "b.xml"], ino="big", gs=["g1"]))
        ev, text = self.script("pgc_split.py", [fn] + (["-s", op["size"]] if op["size"] else ["-p", op["parts"]]), None)
        ev["ends"], ev["tidy"], last = [], True, 0
        from daeso.utils.opsys import multiglob
        for p in multiglob([self.real(["big", "o_*"])]):
            for e in et.ElementTree(file=p).getroot().findall("aligned_graphs/graph_pair/graph_meta_data/k"):
                ev["tidy"] = ev["tidy"] and int(e.text) == last + 1
                last += 1
            ev["ends"].append(last)
        shutil.rmtree(self.real(["big"]))
        return ev

    def do_join(self, op):
        self.mkdir(op["to"][:-1])
        self.age()
        cwd = op["to"][:-1]
        a = [self.arg(p, None) for p in op.get("args", op["paths"])]
        ev, text = self.script("pgc_join.py", a + ["-f"] * op.get("pprint", 0) + ["-V"] * op.get("V", 0), cwd)
        if ev["code"] == 0:
            f = open(self.real(op["to"]), "wb")
            f.write(text.encode("utf-8"))
            f.close()
            ev["decl"] = text.startswith(u"<?xml")
        else:
            ev["decl"] = not text
        ev.update(self.wrote())
        return ev

    def do_joinparts(self, op):
        """join what the split before produced"""
        ps = self.parts
        d, name = op["of"][:-1], op["of"][-1]
        if op["V"]:
            stem, ext = os.path.splitext(name)
            for c in "[]":
                stem = stem.replace(c, "?")
            a = [d + [stem + "_*" + ext]]
        else:
            a = ps[::-1]
        if not ps:
            return {"op": "look"}
        ev = self.do_join(dict(op, paths=ps, args=a))
        ev.update(op="join", paths=ps)
        return ev

    def do_read(self, op):
        if op.get("maybe") and not os.path.exists(self.real(op["path"])):
            return {"op": "look"}
        return Base.do_read(self, op)

    def do_cp(self, op):
        self.mkdir(op["target"] if op["isdir"] else op["target"][:-1])
        self.age()
        cwd = op.get("cwd")
        a = [self.arg(p, cwd) for p in op["paths"]] + [self.arg(op["target"], cwd) + ("/" if op.get("slash") else "")]
        if op["over"]:
            a.insert(0, op.get("long") and "--overwrite" or "-o")
        ev, text = self.script("pgc_cp.py", a, cwd)
        ev.update(self.wrote())
        return ev

    def do_chdir(self, op):
        self.age()
        cwd = op.get("cwd")
        a = [self.arg(p, cwd) for p in op["paths"]]
        if op.get("dflt"):
            pp = []
        else:
            pp = ["-p", op["pa"].replace(ROOT, self.root), op["pb"].replace(ROOT, self.root)]
        a = op.get("first") and pp + (op["dry"] and ["-t"] or op.get("V") and ["-V"] or ["--"]) + a or \
            a + pp + (op["dry"] and ["-t"] or []) + (op.get("V") and ["-V"] or [])
        ev, text = self.script("pgc_chdir.py", a, cwd)
        ev.update(self.wrote())
        return ev

    def do_zip(self, op):
        self.age()
        cwd = op.get("cwd")
        z = self.real(["zips%d" % len(os.listdir(self.root)), op["arch"] + op.get("ext", ".zip")])
        os.mkdir(os.path.dirname(z))
        ev, text = self.script("pgc_zip.py", [z] + [self.arg(p, cwd) for p in op.get("args", op["paths"])], cwd)
        ev["archive"], ev["members"] = os.path.exists(z), []
        if ev["code"] == 0 and ev["archive"]:
            a = zipfile.ZipFile(z)
            ev["members"] = sorted(drv.s(n).split("/") for n in a.namelist())
            top = self.real(op["to"])
            if not os.path.isdir(top):
                os.makedirs(top)
            for n in a.namelist():
                p = os.path.normpath(os.path.join(top, n))
                if p.startswith(self.root + "/"):
                    if not os.path.isdir(os.path.dirname(p)):
                        os.makedirs(os.path.dirname(p))
                    f = open(p, "wb")
                    f.write(a.read(n))
                    f.close()
            a.close()
        shutil.rmtree(os.path.dirname(z))
        ev.update(self.wrote(drv.s(self.real(op["to"])).encode("utf-8") + "/"))
        return ev


drv.main(H)
