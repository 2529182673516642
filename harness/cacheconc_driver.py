# -*- coding: utf-8 -*-
"""Run programs of threads on one generic cache under many schedules (C27) and record the distinct histories."""
import sys, random, json
import sched
undo = sched.install()
import cache_driver
undo()
from cache_driver import Cache
import drv

S = sched.Sched(3, ["GenericCache"])


class H(object):
    def __init__(self, params):
        self.params = params

    def close(self):
        pass

    def once(self, op, plan):
        """one run under a schedule: (hang, errors, history, lines)"""
        x = Cache(self.params)
        for o in op["pre"]:
            x.do(o)
        # a generator is a place to lose one's turn as well
        x.pause = lambda: sched.CUR[sched.thread.get_ident()].point()
        h, clock = [], [0]

        def do(o, own):
            e = dict(o)
            if own:
                own.point()
            e.update(call=clock[0], ret=0, done=False, res="")
            clock[0] += 1
            h.append(e)
            res = self.do(x, o)
            e["res"], e["done"], e["ret"] = drv.s(res), True, clock[0]
            clock[0] += 1
            if own:
                own.point()

        def job(t):
            def run():
                own = sched.CUR[sched.thread.get_ident()]
                for o in op["progs"][t]:
                    do(o, own)
            return run
        hang, err, lines = S.run([job(t) for t in range(len(op["progs"]))], plan)
        if not hang and not err:
            try:
                for o in op["final"]:
                    do(o, None)
            except sched.Stop:
                hang = True
            except Exception:
                err = drv.exc_name()
        return hang, err, h, lines

    def do(self, x, o):
        if o["op"] == "calls":
            return str(x.calls)
        if o["op"] == "keys":
            ks = [str(k) for k in x.c.keys()]
            return "".join("01"[n in ks] for n in o["names"]) + ":%d" % len(ks)
        if o["op"] == "size":
            return str(x.c.size())
        return x.do(o)

    def step(self, op):
        r = random.Random(op["seed"])
        hs, seen, n, n_threads = [], set(), 0, len(op["progs"])
        ev = dict(hang=False, errors="", hs=hs, runs=0, at=[])
        base = self.once(op, [])
        lens = base[3]
        plans = [[]]
        if not base[0] and not base[1]:
            order = range(n_threads)
            # one preemption: thread a for i lines, then the other(s) to the end, then a
            one = [[(a, i)] + [(b, 1 << 30) for b in order if b != a] for a in order for i in range(1, lens[a] + 2)]
            r.shuffle(one)
            plans += one[:op["one"]]
            for _ in range(op["more"]):
                # several preemptions
                k = r.randint(2, 5)
                a = r.choice(order)
                p = []
                for _ in range(k):
                    p.append((a, r.choice([1, 2, 3, 5, 8, 13, 21, 34, r.randint(1, max(lens) + 1)])))
                    a = r.choice([b for b in order if b != a])
                plans.append(p)
        for p in plans:
            hang, err, h, _ = self.once(op, p)
            ev["runs"] += 1
            if hang or err:
                ev["hang"], ev["errors"], ev["at"] = hang, err, [list(z) for z in p]
                break
            t = json.dumps(h, sort_keys=True)
            if t not in seen:
                seen.add(t)
                hs.append(h)
        return ev


drv.main(H)

from java.lang import System
System.exit(0)
