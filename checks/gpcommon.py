def tcfg():
    return "CONSTANTS\n Start <- TrStart\n Failing <- TrFailing\n After <- TrAfter\n"

def mcfg(inv, props, consts, emit=True):
    s = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\n"
    s += "CONSTANTS\n" + "\n".join(" %s = %s" % kv for kv in consts.items()) + "\n"
    s += "".join("INVARIANT %s\n" % i for i in inv) + "".join("PROPERTY %s\n" % p for p in props)
    if emit:
        s += "ACTION_CONSTRAINT Emit\n"
    return s

def only_last(ops, key="q"):
    """drop the observations of all but the last operation (the prefixes are plans of their own)"""
    return [dict(o, **({key: 0} if i < len(ops) - 1 else {})) for i, o in enumerate(ops)]
