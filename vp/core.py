"""Common machinery: run TLC, run drivers under Jython on /repo, judge traces, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, threading, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")   # VP_REPO: only for trying planted bugs in scratch copies
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


class TlcResult(object):
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct", out, re.M)
        self.generated, self.distinct = ((int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", "")))
                                         if m else (0, 0))
        self.violated = re.findall(r"Invariant (\S+) is violated|Action property (\S+) is violated", out)
        self.errors = [l for l in out.splitlines() if l.startswith("Error:")]
        self.finished = "Model checking completed" in out or "Finished in" in out

    def printed(self, tag):
        """JSON values printed by the spec as PrintT("<tag> " \\o ToJson(..)) (one line each)."""
        res, pre = [], '"%s ' % tag
        for l in self.out.splitlines():
            if l.startswith(pre) and l.endswith('"'):
                res.append(json.loads(json.loads(l)[len(tag) + 1:]))
        return res


def unescape_tla(s):
    return json.loads(s)


class Check(object):
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []      # dicts: key, what, run, plan
        self.notes = []
        self.level = "model_checking"
        self.plans = {}
        self.lock = threading.Lock()

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def phase(self, what):
        if os.environ.get("VP_PHASES"):
            sys.stderr.write("%6.1f %s\n" % (time.time() - self.t0, what))

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, extra=(), label=None, heap="3g",
            expect_ok=True, count=True):
        """Run TLC on spec/<module>.tla with the configuration text `cfg`."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % (2 if workers == 1 else 4),
               "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=%d" % 4, "-Dfile.encoding=UTF-8",
               "-cp", CP, "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-nowarning"] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        self.phase("tlc " + module)
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(d, ignore_errors=True)
        r = TlcResult(p.returncode, out)
        if count:
            with self.lock:
                self.states += r.distinct
                self.transitions += r.generated
        if expect_ok and p.returncode != 0:
            raise MachineryError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, "\n".join([l for l in out.splitlines() if not re.match("Parsing|Semantic proc|Linting|Running|TLC2|Progress|.PLAN", l)])[:3000]))
        if label:
            self.cov.setdefault("models", []).append(
                dict(model=label, module=module, states=r.distinct, transitions=r.generated))
        return r

    def model(self, module, cfg, label, workers=4, tag=None, **kw):
        """Exhaustive check of a specification; returns the plans it printed under `tag`."""
        r = self.tlc(module, cfg, workers=workers, label=label, **kw)
        return r.printed(tag) if tag else r

    # ---- Jython ----------------------------------------------------------
    classes = ()

    def java(self, *sources):
        """compile helper classes of the harness; the drivers find them"""
        d = os.path.join(self.work, "classes")
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-cp", "/usr/share/java/jython.jar", "-d", d]
                           + [os.path.join(HARNESS, "java", x) for x in sources], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise MachineryError("javac: " + r.stdout.decode("utf-8", "replace")[:2000])
        self.classes = (d,)

    def jenv(self, extra_path=()):
        e = {k: v for k, v in os.environ.items()
             if k not in ("PYTHONPATH", "JAVA_TOOL_OPTIONS", "CLASSPATH")}
        e.update(HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8",
                 PATH="/opt/jy/bin:" + REPO + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
                 JYTHONPATH=":".join([os.path.join(REPO, "lib"), "/opt/jy/lib", HARNESS] + list(extra_path) + list(self.classes)),
                 TMPDIR=self.work)
        return e

    def jython(self, script, args, timeout=600, cwd=None, watch=None, stall=None):
        """run a script; with watch (a file) and stall (seconds): end it when the file has not grown for that long"""
        p = subprocess.Popen(["/opt/jy/bin/jython2", os.path.join(HARNESS, script)] + [str(a) for a in args],
                             cwd=cwd or self.work, env=self.jenv(), stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True)
        t0 = last = time.time()
        size, to = -1, False
        while True:
            try:
                out, err = p.communicate(timeout=2)
                break
            except subprocess.TimeoutExpired:
                now = time.time()
                if watch:
                    n = os.path.getsize(watch) if os.path.exists(watch) else -1
                    if n != size:
                        size, last = n, now
                if now - t0 > timeout:
                    to = "total"
                elif watch and stall and now - last > stall:
                    to = "stall"
                if to:
                    os.killpg(p.pid, signal.SIGKILL)
                    out, err = p.communicate()
                    break
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to

    def drive(self, driver, plans, procs=4, timeout=None, opt=()):
        """Execute plans (list of {"run","params","ops"}) on the real code. Returns trace files."""
        for i, p in enumerate(plans):
            p.setdefault("run", "r%d" % i)
            p.setdefault("params", {})
            self.plans[p["run"]] = p
        # a run that makes no progress does not terminate; a machine that is merely slow is no violation
        timeout = timeout or self.n(780, 3600)
        stall = self.n(150, 400)
        procs = max(1, min(procs, (len(plans) + 49) // 50 if sum(len(p["ops"]) for p in plans) < 2000 else procs))
        chunks = [plans[k::procs] for k in range(procs)]
        jobs = []
        for k, c in enumerate(chunks):
            if not c:
                continue
            d = tempfile.mkdtemp(prefix="drv-", dir=self.work)
            pf, tf = os.path.join(d, "plan.ndjson"), os.path.join(d, "trace.ndjson")
            with open(pf, "w") as f:
                for p in c:
                    f.write(json.dumps(p) + "\n")
            jobs.append((c, d, pf, tf))

        def run(job):
            c, d, pf, tf = job
            rc, out, err, to = self.jython(driver, [pf, tf] + list(opt), timeout=timeout, cwd=d, watch=tf, stall=stall)
            if to == "total":
                raise MachineryError("driver %s took more than %d s" % (driver, timeout))
            done = set()
            if os.path.exists(tf):
                with open(tf) as f:
                    lines = f.read().split("\n")
                good = []
                for l in lines[:-1]:
                    try:
                        ev = json.loads(l)
                    except ValueError:
                        break
                    good.append((ev, l))
                    if ev.get("exc") and ev.get("op") != "reset":
                        with self.lock:
                            self.cov["events_with_exception"] = self.cov.get("events_with_exception", 0) + 1
                    if ev.get("op") == "end":
                        done.add(ev["run"])
            else:
                good = []
            missing = [p["run"] for p in c if p["run"] not in done]
            if missing:
                if to:
                    what = "did not terminate within %d s" % stall
                elif not good and not done:
                    what = "driver could not start: " + err[-1500:]
                else:
                    what = "driver died: " + err[-1500:]
                with self.lock:
                    self.violations.append(dict(key="%s:nontermination" % missing[0] if to else "driver:" + missing[0],
                                                what="run %s %s" % (missing[0], what), run=missing[0]))
                # keep completed runs only
                with open(tf, "w") as f:
                    buf = []
                    for ev, l in good:
                        buf.append(l)
                        if ev.get("op") == "end":
                            f.write("\n".join(buf) + "\n")
                            buf = []
            self.phase("driver " + driver)
            with self.lock:
                self.events += len(good)
                self.traces += len(done)
            return tf
        with ThreadPoolExecutor(len(jobs) or 1) as ex:
            return list(ex.map(run, jobs))

    # ---- trace validation --------------------------------------------------
    def judge(self, module, tracefiles, constants="", procs=6, timeout=800, sample=2, maxev=None, defs=""):
        """Validate recorded traces with spec/<module>.tla (built on TraceBase); collect violations."""
        runs = []
        for tf in tracefiles:
            if not os.path.exists(tf):
                continue
            buf = []
            with open(tf) as f:
                for l in f:
                    l = l.rstrip("\n")
                    if not l:
                        continue
                    buf.append(l)
                    if l.startswith('{"op": "end"'):
                        runs.append(buf)
                        buf = []
        if not runs:
            return []
        if not self.samples:
            for r in runs[:sample]:
                self.samples.append([json.loads(x) for x in r[:6]])
        total = sum(len(r) for r in runs)
        procs = max(1, min(procs, total // 300 + 1))
        # greedy balance by bytes
        chunks = [[0, []] for _ in range(procs)]
        for r in sorted(runs, key=lambda r: -sum(map(len, r))):
            c = min(chunks, key=lambda c: c[0])
            c[0] += sum(map(len, r))
            c[1].append(r)
        jobs = []
        for k, (_, rs) in enumerate(chunks):
            if not rs:
                continue
            fn = os.path.join(self.work, "judge-%s-%d-%d.ndjson" % (module, id(chunks) % 100000, k))
            with open(fn, "w") as f:
                for r in rs:
                    f.write("\n".join(r) + "\n")
            jobs.append((fn, sum(len(r) for r in rs)))
        cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nINVARIANT TypeOK\n" + constants + "\n"

        def run(job):
            fn, n = job
            r = self.tlc(module, cfg, env={"TRACE": fn}, timeout=timeout, expect_ok=False)
            v = r.printed("VERDICT")
            if not v:
                msg = "\n".join([l for l in r.out.splitlines() if not re.match("Parsing|Semantic proc|Linting|Running|TLC2|Progress|Starting|Finished", l)][:40])
                pos = re.findall(r"ti = (\d+)", r.out)
                at = int(pos[-1]) if pos else 0
                evs = open(fn).read().split("\n")
                run = "?"
                for l in evs[:at][::-1]:
                    if '"op": "reset"' in l:
                        run = json.loads(l)["run"]
                        break
                if "evaluat" in r.out or "Attempted" in r.out or "exception" in r.out.lower():
                    return [dict(run=run, i=at, step=at, clauses=["trace not evaluable (ill-typed observation)"],
                                 event=evs[at - 1][:3000] if 0 < at <= len(evs) else "", detail=msg)]
                raise MachineryError("TLC gave no verdict on %s: %s" % (module, msg))
            if v[0]["n"] != n:
                raise MachineryError("TLC consumed %s of %d events" % (v[0]["n"], n))
            res = v[0]["bad"]
            if res:
                evs = open(fn).read().split("\n")
                for b in res:
                    b["event"] = evs[b["i"] - 1][:4000]
            return res
        with ThreadPoolExecutor(len(jobs)) as ex:
            bads = [b for bs in ex.map(run, jobs) for b in bs]
        for b in bads:
            key = "%s:%s" % (b["run"], ",".join(sorted(b["clauses"])))
            self.violations.append(dict(key=key, run=b["run"], what="run %s step %s: %s" % (
                b["run"], b["step"], "; ".join(sorted(b["clauses"]))), event=b["event"],
                plan=self.plans.get(b["run"]), module=module, detail=b.get("detail", "")))
        return bads

    def violation(self, key, what, **kw):
        self.violations.append(dict(key=key, what=what, **kw))

    # ---- reporting -----------------------------------------------------------
    def known(self):
        res = {}
        fn = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(fn):
            for l in open(fn):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.prop:
                    res[m.group(2)] = m.group(3)
        return res

    def finish(self):
        known = self.known()
        new, seen = [], set()
        for v in self.violations:
            k = v["key"].replace(" ", "_")
            if k in known:
                seen.add(k)
            else:
                new.append(v)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, events=self.events,
                   samples=self.samples[:3])
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, ensure_ascii=False)
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump(new[:60], f, indent=1, default=str)
            for v in new[:5]:
                print("  " + v["what"][:1500])
                if v.get("event"):
                    print("    event: " + v["event"][:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            self.prop, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 0
