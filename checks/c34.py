from checks.gpcommon import *

VALS = ["x", "y", "zed", "a", "b", "3", "12", "-5", "0", "two words", "-two words", "--two words", "", "-", "-1.5", "-.5", "-5x", "--5", "a=b", "x.xml", "*.xml"]
LONG = ["--size", "--sizes", "--format", "--force", "--with-all", "--with_comments", "--tag", "--t", "--relations", "--rel", "--verbose-all", "--out-put", "--x"]
SHORTS = ["-a", "-b", "-c", "-f", "-s", "-t", "-x", "-p", "-r", "-W", "-7", "-foo", "-fo", "-outp", "-verb"]


def arg(names, dest, kind="store", nargs="1", **kw):
    return dict(dict(names=names, dest=dest, kind=kind, nargs=nargs, type="str", choices=[], req=False, const="None"), **dict({"def": "None"}, **kw))


def auto(names):
    """the attribute an option is known by: its first long name, else its first name"""
    n = ([x for x in names if x.startswith("--")] + names)[0]
    return n.lstrip("-").replace("-", "_")


HELP = [arg(["-h", "--help"], "help", "help", "0"), arg(["-v", "--version"], "version", "version", "0")]


def rnd_parser(r):
    args, used = [dict(a) for a in HELP], []
    free = r.sample(LONG, len(LONG)) + []
    short = r.sample(SHORTS, len(SHORTS))
    for j in range(r.choice([0, 1, 1, 2, 3])):
        n = r.choice(["1", "1", "1", "?", "*", "+", "+", "2"])
        a = arg([], "p%d" % j, "store", n)
        if r.random() < .25 and n != "*":
            a["type"], a["choices"] = r.choice([("int", []), ("str", ["'a'", "'b'", "'x'"]), ("int", ["3", "12", "0"])])
        if n in "?*" and r.random() < .4:
            a["def"] = "3" if a["type"] == "int" else "'x'" if n == "?" else "['q','r']"
        args.append(a)
    for j in range(r.randint(0 if len(args) > 2 else 1, 6)):
        names = [short.pop()] if r.random() < .5 else []
        if not names or r.random() < .7:
            names.append(free.pop())
        if r.random() < .15:
            names.append(free.pop())
        r.shuffle(names)
        k = r.choice(["store"] * 5 + ["const"] * 4 + ["append", "append_const", "count"])
        d, own = auto(names), True
        if d in [b["dest"] for b in args]:
            d, own = d + "_2", False
        a = arg(names, d, k, "0", auto=own)
        if k in ("store", "append"):
            a["nargs"] = r.choice(["1", "1", "1", "1", "?", "*", "+", "2", "3"] if k == "store" else ["1", "1", "2"])
            z = r.random()
            if z < .2:
                a["type"] = "int"
                if k == "store" and a["nargs"] == "1" and r.random() < .5:
                    a["def"], a["strdef"] = "5", r.random() < .5
            elif z < .35:
                a["choices"] = ["'a'", "'b'", "'x'"]
            elif z < .5 and a["nargs"] in "1?":
                a["def"] = "'dflt'" if k == "store" else "['q']"
            if a["nargs"] == "?" and r.random() < .5:
                a["const"] = "'cst'" if not a["choices"] and a["type"] == "str" else "None"
        elif k == "const":
            a["def"], a["const"] = r.choice([("False", "True"), ("False", "True"), ("True", "False"), ("None", "4"), ("'d'", "'c'")])
        elif k == "append_const":
            a["const"] = r.choice(["'c'", "1"])
        if r.random() < .1 and k != "count":
            a["req"] = True
        args.append(a)
    r.shuffle(args[2:])
    # options that have no default may share what they set
    same = [a for a in args if a["names"] and a["kind"] == "const" and a["def"] == "False"]
    if len(same) > 1 and r.random() < .3:
        same[1].update(dest=same[0]["dest"], auto=False)
    groups = []
    ms = [j + 1 for j, a in enumerate(args) if a["names"] and j > 1 and not a["req"] and a["nargs"] in ("0", "1", "2") and a["def"] in ("None", "False")]
    if len(ms) > 1 and r.random() < .3:
        groups.append(dict(ms=sorted(r.sample(ms, r.randint(2, min(3, len(ms))))), req=r.random() < .3))
    return dict(args=args, groups=groups, n=0)


def values(r, a, n):
    pool = [c.strip("'") for c in a["choices"]] if a["choices"] and r.random() < .9 else ["3", "12", "-5", "0"] if a["type"] == "int" and r.random() < .9 else VALS
    return [r.choice(pool) for _ in range(n)]


def count(r, n):
    return {"0": 0, "1": 1, "2": 2, "3": 3, "?": r.choice([0, 1]), "*": r.choice([0, 1, 2, 3]), "+": r.choice([1, 1, 2, 3])}[n]


def rnd_line(r, p):
    """mostly sensible: every positional, some options; then perhaps something odd"""
    opts = [a for a in p["args"][2:] if a["names"]]
    poss = [a for a in p["args"] if not a["names"]]
    units = []
    for a in opts:
        for _ in range(r.choice([0, 0, 1, 1, 1, 2]) or (a["req"] and r.random() < .9)):
            n = r.choice(a["names"])
            vs = values(r, a, count(r, a["nargs"]))
            if n.startswith("--") and r.random() < .35:
                n = n[:r.randint(3, len(n))]
            elif n[1] != "-" and len(n) > 2 and r.random() < .5:
                n = n[:r.randint(2, len(n))]
            z = r.random()
            if len(vs) == 1 and n.startswith("--") and z < .5:
                units.append([n + "=" + vs[0]])
            elif len(vs) == 1 and len(n) == 2 and vs[0][:1] not in ("", "=") and z < .5:
                units.append([n + vs[0]])
            else:
                units.append([n] + vs)
    flags = [n[1] for a in opts if a["nargs"] == "0" for n in a["names"] if len(n) == 2]
    if len(flags) > 1 and r.random() < .4:
        u = "-" + "".join(r.choice(flags) for _ in range(r.randint(2, 3)))
        tails = [(n[1], a) for a in opts if a["nargs"] == "1" for n in a["names"] if len(n) == 2]
        if tails and r.random() < .4:
            t, a = r.choice(tails)
            v = values(r, a, 1)
            units.append([u + t] + v if r.random() < .5 or v[0][:1] in ("", "=") else [u + t + v[0]])
        else:
            units.append([u])
    vals = [v for a in poss for v in values(r, a, count(r, a["nargs"]))]
    r.shuffle(units)
    z = r.random()
    if z < .6:
        # options before, a "--" if need be, and all values; options after them
        k = r.randint(0, len(units))
        line = [x for u in units[:k] for x in u]
        if vals and r.random() < .35:
            line = [x for u in units for x in u] + ["--"] + [v if r.random() < .8 or v.isdigit() else "-" + v for v in vals]
        else:
            line += vals + [x for u in units[k:] for x in u]
    else:
        q = units + [[v] for v in vals]
        r.shuffle(q)
        line = [x for u in q for x in u]
    if r.random() < .25 and line:
        j = r.randrange(len(line))
        o = r.choice("dirva")
        if o == "d":
            del line[j]
        elif o == "i":
            line.insert(j, r.choice(VALS + LONG + SHORTS + ["--unknown", "--size=", "-q", "--="]))
        elif o == "a":
            # a shortened name that may be that of several options, with a value
            n = r.choice([n for a in p["args"] for n in a["names"] if n.startswith("--")])
            line.insert(j, n[:r.choice([3, 3, 4, 5])] + "=" + r.choice(["two words", "3", "a=b c", ""]))
        elif o == "r":
            line[j] = r.choice(VALS)
        else:
            line.insert(j, r.choice(["-h", "--help", "-v", "--version", "--vers", "--he"]))
    # "-x=3" and a second "--" are left open
    dd = line.index("--") + 1 if "--" in line else len(line)
    line = line[:dd] + [x for x in line[dd:] if x != "--"]
    return [x for x in line if not (x[:1] == "-" and x[1:2] != "-" and x[2:3] == "=")]


def run(ck):
    laws = ["Forward", "Agrees", "AllRead", "NoHelp", "Exclusive", "Joined", "Short", "Apart", "First"]
    hs = ck.model("CmdLine", mcfg(laws, [], dict(Depth=ck.n(3, 4))), "CmdLine", workers=8, tag="PLAN")
    hs = sorted(hs, key=repr)
    r = ck.rng
    lim = ck.n(3000, 40000)
    if len(hs) > lim:
        hs = r.sample(hs, lim)
    by = {}
    for h in hs:
        by.setdefault(h["pn"], (h["p"], []))[1].append(h["line"])
    plans = []
    for pn, (p, lines) in sorted(by.items()):
        for k in range(0, len(lines), 40):
            plans.append(dict(run="m%d.%d" % (pn, k), params=dict(p=p), ops=[dict(op="read", line=l, argv=r.random() < .2) for l in lines[k:k + 40]]))
    for k in range(ck.n(250, 5000)):
        p = rnd_parser(r)
        plans.append(dict(run="r%d" % k, params=dict(p=p), ops=[dict(op="read", line=rnd_line(r, p), argv=r.random() < .2) for _ in range(20)]))
    tr = ck.drive("cmdline_driver.py", plans, procs=4)
    ck.judge("CmdLineTrace", tr, tcfg())
