#!/usr/bin/python3
"""tools/corrupt.py C07 [n] [seed]: record traces of a check, corrupt one observed field in each of n runs and
judge these: prints the fields of which a corruption was accepted (not judged, or equivalent)."""
import sys, os, json, random, copy, collections, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import core
prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 400
rng = random.Random(sys.argv[3] if len(sys.argv) > 3 else "0")
ck = core.Check(prop)
real = core.Check.judge


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            for y in leaves(x[k], path + (k,)):
                yield y
    elif isinstance(x, list):
        if x:
            yield path + ("#",), x
        for k, y in enumerate(x):
            for z in leaves(y, path + (k,)):
                yield z
    else:
        yield path, x


def change(v):
    if isinstance(v, list):
        w = list(v)
        c = rng.choice(["drop", "dup", "swap"] if len(v) > 1 else ["drop", "dup"])
        if c == "drop":
            del w[rng.randrange(len(w))]
        elif c == "dup":
            w.insert(rng.randrange(len(w)), rng.choice(w))
        else:
            i, j = rng.sample(range(len(w)), 2)
            w[i], w[j] = w[j], w[i]
        return w
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 7, 100])
    if isinstance(v, str):
        return rng.choice([v + "~", v[:-1] if v else "q"])
    return v


def judge(self, module, tfs, constants="", **kw):
    runs = []
    for tf in tfs:
        buf = []
        for l in open(tf):
            buf.append(l.rstrip("\n"))
            if l.startswith('{"op": "end"'):
                runs.append(buf)
                buf = []
    small = [r for r in runs if len(r) < 60] or runs
    out, info = [], {}
    for k in range(n):
        r = rng.choice(small)
        evs = [json.loads(x) for x in r]
        plan = self.plans[evs[0]["run"]]
        j = rng.randrange(1, len(evs) - 1) if len(evs) > 2 else None
        if j is None:
            continue
        j = rng.choice([j, len(evs) - 2])
        ev = evs[j]
        given = plan["ops"][j - 1] if j - 1 < len(plan["ops"]) else {}
        cand = collections.defaultdict(list)
        for p, v in leaves({a: b for a, b in ev.items() if a not in ("op", "fatal", "tb") and not (a in given and given[a] == b)}):
            cand[tuple("*" if isinstance(q, int) else q for q in p)].append((p, v))
        if not cand:
            continue
        gen = rng.choice(sorted(cand))
        p, v = rng.choice(cand[gen])
        w = change(v)
        if w == v:
            continue
        x = evs[j]
        path = [q for q in p if q != "#"]
        for q in path[:-1]:
            x = x[q]
        x[path[-1]] = w
        name = "k%d" % k
        evs[0]["run"] = evs[-1]["run"] = name
        info[name] = (ev["op"], gen, v, w, evs[j])
        del evs[j + 1:-1]

        def dump(e):
            e = dict(e)
            op = e.pop("op")
            t = json.dumps(e)
            return '{"op": %s%s' % (json.dumps(op), ", " + t[1:] if len(t) > 2 else t[1:])
        out.append("\n".join(dump(e) for e in evs))
    bad, P = set(), 6
    self.tmp = []
    for c in range((len(out) + 19) // 20):      # at most 25 rejections are listed per file
        fn = os.path.join(self.work, "corrupt%d.ndjson" % c)
        open(fn, "w").write("\n".join(out[c * 20:c * 20 + 20]) + "\n")
        self.tmp.append(fn)
    from concurrent.futures import ThreadPoolExecutor

    def one(fn):
        res = []
        while True:
            bs = real(self, module, [fn], constants, procs=1)
            res += bs
            il = [b for b in bs if "not evaluable" in str(b["clauses"])]
            if not il:
                return res
            ill.extend(il)
            rs = open(fn).read().split('{"op": "reset"')[1:]
            rs = ['{"op": "reset"' + x for x in rs if '"run": "%s"' % il[0]["run"] not in x]
            if not rs:
                return res
            fn += "x"
            open(fn, "w").write("".join(rs))
    with ThreadPoolExecutor(P) as ex:
        for bs in ex.map(one, self.tmp):
            bad |= {b["run"] for b in bs}
    tot, acc = collections.Counter(), collections.defaultdict(list)
    for k, (op, gen, v, w, ev) in info.items():
        tot[op, gen] += 1
        if k not in bad:
            acc[op, gen].append((v, w, ev))
    assert len({b['run'] for b in ill} - bad) == 0
    print("%s %s: %d corrupted, %d rejected, %d ill-typed" % (prop, module, len(info), len(info) - sum(map(len, acc.values())), len(ill)))
    for (op, gen), l in sorted(acc.items(), key=lambda x: (-len(x[1]), str(x[0]))):
        v, w, ev = l[0]
        print("  %-12s %-40s accepted %d of %d   e.g. %s -> %s" % (op, ".".join(gen), len(l), tot[op, gen], json.dumps(v)[:60], json.dumps(w)[:60]))
        if os.environ.get("FULL"):
            print("       ", json.dumps(ev)[:700])
    return []


ill = []
core.Check.judge = judge
importlib.import_module("checks." + prop.lower()).run(ck)
import shutil
shutil.rmtree(ck.work, ignore_errors=True)
