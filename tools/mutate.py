#!/usr/bin/python3
"""Mutation testing of the checks: mutate.py WORKDIR SEED PER_FILE [FILE...]
Makes a copy of /repo and /verif in WORKDIR, applies random token mutations of the library one at a time, keeps those
that the unit tests of the mutated module do not notice, runs the checks anchored in the mutated file until one alarms.
Survivors are written to WORKDIR/survivors.txt, everything to WORKDIR/log.txt."""
import sys, os, io, json, random, subprocess, tokenize, shutil, keyword, time, re
W, SEED, PER = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = sys.argv[4:]
R, V = W + "/repo", W + "/verif"
os.makedirs(W, exist_ok=True)
for p in (R, V):
    if os.path.exists(p): shutil.rmtree(p)
subprocess.check_call(["cp", "-a", "/repo", R])
subprocess.check_call(["git", "clone", "-q", "/verif", V])
rng = random.Random(SEED)
checks = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p.get("anchors", p.get("where", {})).get("files", []) if isinstance(p.get("anchors", p.get("where")), dict) else []:
        checks.setdefault(f, []).append(p["id"])
EXTRA = {"lib/daeso/pair.py": [], "lib/daeso/utils/etree.py": [], "lib/daeso/utils/opsys.py": []}
OPS = {"==": ["!="], "!=": ["=="], "<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"],
       "+=": ["-=", "="], "-=": ["+="], "**": ["*"]}
NAMES = {"and": ["or"], "or": ["and"], "True": ["False"], "False": ["True"], "source": ["target"], "target": ["source"], "break": ["continue", "pass"],
         "continue": ["break", "pass"], "min": ["max"], "max": ["min"], "append": ["extend"], "succ": ["pred"], "pred": ["succ"], "sources": ["targets"], "targets": ["sources"],
         "in_degree": ["out_degree"], "any": ["all"], "all": ["any"], "not": [""], "is": ["is not"], "startswith": ["endswith"], "int": [""], "set": ["list"], "sorted": ["list"],
         "lower": ["upper"], "source_bank": ["target_bank"], "iteritems": [], "rjust": ["ljust"], "None": ["0"], "basename": ["abspath"], "copy": [], "deepcopy": ["copy"]}


def base_lines(fn):
    "line numbers that come from the original repository"
    out = subprocess.run(["git", "blame", "-s", "--root", fn], cwd="/repo", stdout=subprocess.PIPE, encoding="latin-1").stdout.split("\n")
    root = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.strip()
    return {i + 1 for i, l in enumerate(out) if l.split(" ")[0].strip("^") and root.startswith(l.split(" ")[0].strip("^"))}


def mutants(fn):
    src = open(os.path.join("/repo", fn), encoding="latin-1").read()
    lines = src.splitlines(True)
    ok = base_lines(fn)
    res = []
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except (tokenize.TokenError, IndentationError, SyntaxError):
        toks = []
    for k, t in enumerate(toks):
        r, c = t.start
        if r not in ok: continue
        alts = []
        if t.type == tokenize.OP: alts = OPS.get(t.string, [])
        elif t.type == tokenize.NAME: alts = NAMES.get(t.string, [])
        elif t.type == tokenize.NUMBER and re.match(r"^\d+$", t.string): alts = [str(int(t.string) + 1)] + (["0"] if t.string != "0" else [])
        elif t.type == tokenize.STRING and t.start[0] == t.end[0] and toks[k-1].type not in (tokenize.NEWLINE, tokenize.INDENT, tokenize.NL):
            s = t.string
            for a, b in (("from", "to"), ("source", "target"), ("utf-8", "ascii")):
                if a in s: alts.append(s.replace(a, b))
                elif re.search(r"\b%s\b" % b, s): alts.append(s.replace(b, a))
        for a in alts:
            new = lines[:]
            new[r - 1] = lines[r - 1][:c] + a + lines[r - 1][c + len(t.string):]
            res.append((r, "".join(new), lines[r - 1].strip(), new[r - 1].strip()))
    # statement deletion
    depth = 0
    start = True
    for k, t in enumerate(toks):
        if t.type in (tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT, tokenize.NL, tokenize.COMMENT, tokenize.ENCODING):
            if t.type == tokenize.NEWLINE: start = True
            continue
        if start:
            start = False
            if t.type == tokenize.NAME and t.string not in ("def", "class", "if", "elif", "else", "for", "while", "try", "except", "finally", "import", "from", "with", "pass", "global", "raise", "assert"):
                e = k
                while toks[e].type != tokenize.NEWLINE: e += 1
                a, b = t.start[0], toks[e].start[0]
                if a in ok and t.start[1] > 0:
                    new = lines[:]
                    ind = lines[a - 1][:t.start[1]]
                    new[a - 1:b] = [ind + "pass\n"]
                    res.append((a, "".join(new), lines[a - 1].strip(), "pass"))
    return res


def tests(fn):
    m = os.path.splitext(os.path.basename(fn))[0]
    out = subprocess.run(["find", R + "/test", "-name", "test_*.py", "!", "-name", "test_all.py"], stdout=subprocess.PIPE, text=True).stdout.split()
    pick = [p for p in out if os.path.basename(p) == "test_%s.py" % m]
    if fn.startswith("bin/"): pick += [p for p in out if "/bin/" in p]
    if m in ("etree", "corpus", "graphbank", "parser", "graphstub"): pick += [p for p in out if "xmlio" in p or "test_corpus" in p or "graphbank" in p]
    if m == "graphml": pick += [p for p in out if "grapml" in p or "xmlio" in p]
    if m in ("ograph", "daesograph", "graphpair"): pick += [p for p in out if "test_corpus" in p]
    return sorted(set(pick))


ENV = dict(os.environ, JYTHONPATH=R + "/lib:/opt/jy/lib", VP_REPO=R, LC_ALL="C.UTF-8", HOME="/root")
base = {}


def run_tests(fn):
    got = []
    for p in tests(fn):
        o = W + "/plan"
        subprocess.run(["timeout", "60", "/opt/jy/bin/jython2", "/opt/jy/runtests.py", p, o], cwd=R, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try: got += sorted(l for l in open(o) if l.startswith("PASS"))
        except OSError: pass
    return got


def main():
    todo = []
    files = FILES or sorted(checks)
    for fn in files:
        ms = mutants(fn)
        rng.shuffle(ms)
        todo += [(fn,) + m for m in ms[:PER]]
        print(fn, len(ms), checks.get(fn))
    rng.shuffle(todo)
    log = open(W + "/log.txt", "a", buffering=1)
    surv = open(W + "/survivors.txt", "a", buffering=1)
    for k, (fn, line, new, a, b) in enumerate(todo):
        if fn not in base: base[fn] = run_tests(fn)
        p = os.path.join(R, fn)
        orig = open(p, encoding="latin-1").read()
        open(p, "w", encoding="latin-1").write(new)
        subprocess.run("find %s/lib -name '*$py.class' -delete" % R, shell=True)
        t0 = time.time()
        verdict = "?"
        try:
            if set(run_tests(fn)) != set(base[fn]): verdict = "tests"
            else:
                verdict = "SURVIVED"
                for c in checks.get(fn, []):
                    r = subprocess.run(["timeout", "900", "./check", c], cwd=V, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode == 1 and "VIOLATION" in r.stdout: verdict = c; break
                    if r.returncode != 0: verdict = "rc%d %s" % (r.returncode, c); break
        finally:
            open(p, "w", encoding="latin-1").write(orig)
        msg = "%d/%d %s %s:%d  %s  ->  %s  (%ds)\n" % (k + 1, len(todo), verdict, fn, line, a, b, time.time() - t0)
        log.write(msg)
        if verdict == "SURVIVED" or verdict.startswith("rc"): surv.write(msg)


main()
