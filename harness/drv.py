# -*- coding: utf-8 -*-
"""Shared part of the Jython drivers: run plans, record events."""
import sys, json, os, traceback, warnings
warnings.simplefilter("ignore")

BIG = -999999999


def i(x):
    """canonical integer (anything else becomes a value no specification expects)"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, long)) and -2**31 < x < 2**31:
        return int(x)
    return BIG


def s(x):
    """canonical string"""
    if x is None:
        return "None"
    if isinstance(x, unicode):
        return x
    if isinstance(x, str):
        try:
            return x.decode("utf-8")
        except UnicodeDecodeError:
            return x.decode("latin-1")
    return u"?" + type(x).__name__ + ":" + unicode(repr(x))


def b(x):
    """canonical truth value as observed by an if statement"""
    return bool(x)


def exc_name():
    return sys.exc_info()[0].__name__


def main(make):
    """make(params) -> object with step(op) -> event dict (keys besides "op")"""
    plan, out = sys.argv[1:3]
    import codecs
    f = codecs.open(out, "w", "utf-8")
    devnull = open(os.devnull, "w")
    so = sys.stdout
    sys.stdout = devnull
    for line in open(plan):
        p = json.loads(line)
        buf = []

        def emit(ev):
            op = ev.pop("op")
            t = json.dumps(ev, ensure_ascii=True)
            buf.append(u'{"op": %s%s' % (json.dumps(op), ", " + t[1:] if len(t) > 2 else t[1:]))
        ev = {"op": "reset", "run": p["run"], "params": p["params"]}
        obj = None
        try:
            obj = make(p["params"])
            init = obj.init() if hasattr(obj, "init") else None
            if init is not None:
                ev["obs"] = init
            ev["exc"] = ""
        except (Exception, ), inst:
            ev["exc"] = exc_name()
            ev["tb"] = traceback.format_exc()[-800:]
        except:
            # Java exceptions
            ev["exc"] = "Java:" + exc_name()
            ev["tb"] = traceback.format_exc()[-800:]
        emit(ev)
        if obj is not None and not ev["exc"]:
            for op in p["ops"]:
                e = dict(op=op["op"])
                try:
                    e = obj.step(op) or {}
                except Exception:
                    e["fatal"] = exc_name()
                    e["tb"] = traceback.format_exc()[-1200:]
                except:
                    e["fatal"] = "Java:" + exc_name()
                    e["tb"] = traceback.format_exc()[-1200:]
                for k, v in op.items():
                    e.setdefault(k, v)
                e.setdefault("fatal", "")
                emit(e)
                if e["fatal"]:
                    break
        elif ev["exc"]:
            emit({"op": "nostart", "fatal": ev["exc"]})
        if hasattr(obj, "close"):
            obj.close()
        buf.append(u'{"op": "end", "run": %s}' % json.dumps(p["run"]))
        f.write(u"\n".join(buf) + u"\n")
        f.flush()
    f.close()
    sys.stdout = so
