# -*- coding: utf-8 -*-
"""Read command lines with parsers like those of the scripts (C34)."""
import sys, StringIO, ast
import drv
from daeso.utils.cli import DaesoArgParser
from daeso.release import version


def canon(v):
    if v is None or v is True or v is False:
        return str(v)
    if isinstance(v, (int, long)):
        return str(v)
    if isinstance(v, basestring):
        return "'%s'" % drv.s(v)
    if isinstance(v, list):
        return "[%s]" % ",".join(canon(x) for x in v)
    return "?" + repr(type(v))


def one(text):
    return " ".join(text.split())


class H(object):
    def __init__(self, params):
        p = self.p = params["p"]
        self.prog = "prog"
        self.parser = DaesoArgParser(prog="prog", description="What it does.")
        groups = [self.parser.add_mutually_exclusive_group(required=g["req"]) for g in p["groups"]]
        for j, a in enumerate(p["args"]):
            if a["kind"] in ("help", "version"):
                continue
            kw = {"help": "about argument %d" % j}
            names = [str(n) for n in a["names"]]
            if not names:
                names = [str(a["dest"])]
            elif not a.get("auto"):
                kw["dest"] = str(a["dest"])
            kind, const, default = a["kind"], ast.literal_eval(a["const"]), ast.literal_eval(a["def"])
            if kind == "const":
                if const is True and default is False:
                    kw["action"] = "store_true"
                elif const is False and default is True:
                    kw["action"] = "store_false"
                else:
                    kw.update(action="store_const", const=const, default=default)
            else:
                if kind != "store":
                    kw["action"] = str(kind)
                if kind == "append_const" or const is not None:
                    kw["const"] = const
                if default is not None:
                    kw["default"] = str(default) if a.get("strdef") else default
                if a["nargs"] not in ("0", "1"):
                    kw["nargs"] = int(a["nargs"]) if a["nargs"].isdigit() else str(a["nargs"])
                if a["type"] == "int":
                    kw["type"] = int
                if a["choices"]:
                    kw["choices"] = [ast.literal_eval(c) for c in a["choices"]]
            if a["req"]:
                kw["required"] = True
            where = [g for g, d in zip(groups, p["groups"]) if j + 1 in d["ms"]]
            (where[0] if where else self.parser).add_argument(*names, **kw)

    def close(self):
        pass

    def names(self):
        return [n for a in self.p["args"] for n in a["names"] or [a["dest"]]]

    def step(self, op):
        ev = dict(op=op["op"], line=op["line"], exc="", out="", ns={}, shown=True)
        line = [str(x) for x in op["line"]]
        out, err, argv = sys.stdout, sys.stderr, sys.argv
        sys.stdout, sys.stderr = StringIO.StringIO(), StringIO.StringIO()
        try:
            try:
                if op["argv"]:
                    sys.argv = ["something/prog"] + line
                    ns = self.parser.parse_args()
                else:
                    ns = self.parser.parse_args(line)
                ev["out"] = "ok"
                ev["ns"] = dict((k, canon(v)) for k, v in vars(ns).items())
                # nothing is said of what was understood
                ev["shown"] = sys.stdout.getvalue() + sys.stderr.getvalue() == ""
            except SystemExit:
                e = sys.exc_info()[1]
                text, errors = one(sys.stdout.getvalue() + " " + sys.stderr.getvalue()), sys.stderr.getvalue()
                if e.code == 2:
                    ev["out"] = "error"
                    # usage and the kind of error
                    usage, _, why = one(errors).partition("prog: error: ")
                    ev["shown"] = usage.startswith("usage: prog") and why != "" and self.listed(usage, False)
                elif e.code in (None, 0):
                    ev["out"] = "help" if "usage:" in text else "version"
                    if ev["out"] == "help":
                        ev["shown"] = self.listed(text, True)
                    else:
                        ev["shown"] = str(version) in text
                else:
                    ev["out"] = "exit %r" % (e.code,)
        except Exception:
            ev["exc"] = drv.exc_name()
        finally:
            sys.stdout, sys.stderr, sys.argv = out, err, argv
        return ev

    def listed(self, text, full):
        """every argument is named (in full: with all its names and its description)"""
        words = set(text.replace("[", " ").replace("]", " ").replace(",", " ").replace("(", " ").replace(")", " ").replace("|", " ").split())
        for j, a in enumerate(self.p["args"]):
            if full and a["kind"] not in ("help", "version") and "about argument %d" % j not in text:
                return False
            if a["names"]:
                ns = a["names"] if full else a["names"][:1]
                if not all(n in words for n in ns):
                    return False
            elif not a["choices"] and a["dest"] not in words:
                return False
        return not full or "What it does." in text and "Erwin Marsi" in text


if __name__ == "__main__":
    drv.main(H)
