# -*- coding: utf-8 -*-
"""Drive daeso.utils.opsys in a scratch directory (C33).  Paths and patterns are lists of names; "how" is the way
they are written, "uni" their type."""
import os, shutil, tempfile
import drv
from daeso.utils import opsys


class H(object):
    def __init__(self, params):
        self.home = os.getcwd()
        self.d = os.path.realpath(tempfile.mkdtemp(dir=self.home))
        os.chdir(self.d)

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.d)

    def text(self, p, op):
        t = u"/".join(p)
        if op.get("how") == "abs":
            t = drv.s(self.d) + "/" + t
        elif op.get("how") == "dot":
            t = "./" + t
        return t if op.get("uni") else t.encode("utf-8")

    def names(self, q, op):
        pre = {"abs": drv.s(self.d) + "/", "dot": "./"}.get(op.get("how"), "")
        res = []
        for x in q:
            x = drv.s(x)
            res.append(x[len(pre):] if x.startswith(pre) else "?" + x)
        return res

    def do(self, op):
        o = op["op"]
        if o == "makedirs":
            p = self.text(op["p"], op) + ("/" if op.get("slash") else "")
            try:
                if op.get("mode"):
                    opsys.makedirs(p, 0755)
                else:
                    opsys.makedirs(p)
            except OSError:
                return ["OSError"]
        elif o == "touch":
            try:
                open(self.text(op["p"], {}), "a").close()
            except IOError:
                pass
        elif o == "remove":
            p = self.text(op["p"], {})
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                os.remove(p)
        elif o == "glob":
            return self.names(opsys.glob(self.text(op["pat"], op)), op)
        elif o == "multi":
            return self.names(opsys.multiglob([self.text(p, op) for p in op["pats"]]), op)
        elif o == "upath":
            p = self.text(op["p"], op) + (op["bad"] and "\xff" or "")
            r = opsys.unicode_path(p)
            if type(r) is str:
                return ["str" if r == p else "?"]
            return ["unicode" if r == self.text(op["p"], dict(op, uni=True)) else "?"]
        return []

    def step(self, op):
        ev = dict(op)
        ev.update(exc="", res=[], tree=[])
        try:
            ev["res"] = self.do(op)
            for base, ds, fs in os.walk(self.d):
                at = drv.s(base[len(self.d):]).split("/")[1:]
                ev["tree"] += [dict(p=at + [drv.s(x)], t="d") for x in ds] + [dict(p=at + [drv.s(x)], t="f") for x in fs]
        except Exception:
            ev["exc"] = drv.exc_name()
        return ev


if __name__ == "__main__":
    drv.main(H)
