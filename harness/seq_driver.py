# -*- coding: utf-8 -*-
"""Drive the sequence functions of daeso.string (C21, C22, C23, C24).
Sequences are lists of items (strings) in plans and events; "ka", "kb": the type to use."""
import drv, math, StringIO
from daeso.string.levenshtein import levenshtein, normalized_levenshtein
from daeso.string.lcs import longest_common_subsequence, normalized_lcs
from daeso.string.median import set_median_string
from daeso.string.needleman_wunsch import needleman_wunsch
from daeso.string.smith_waterman import smith_waterman
from daeso.string.waterman_eggert import waterman_eggert
from daeso.string import needleman_wunsch as nw
from daeso.string import ngram, sgram, rouge, similar, tf_idf


def mk(q, kind):
    if kind == "str":
        return "".join(str(x) for x in q)
    if kind == "unicode":
        return u"".join(q)
    return {"list": list, "tuple": tuple, "set": set, "dict": lambda q: dict((x, 1) for x in q)}[kind](q)


def form(r):
    return {str: "string", unicode: "string", tuple: "tuple", list: "list"}.get(type(r), type(r).__name__)


def n(x, scale=10000):
    return int(round(float(x) * scale))


def lst(r):
    return [drv.s(x) for x in r]


def grid(text, first):
    """a printed matrix: title, numbers and items of the columns, and rows (number, item, cells)"""
    lines = [l.split() for l in text.split("\n") if l.strip()]
    rows = []
    for k, l in enumerate(lines[3:]):
        item = k + first > 0
        rows.append([int(l[0]), drv.s(l[1]) if item else "", l[1 + item:]])
    return {"title": " ".join(lines[0]), "nums": [int(x) for x in lines[1]], "items": lst(lines[2]), "rows": rows}


class H(object):
    def __init__(self, params):
        pass

    def close(self):
        pass

    def step(self, op):
        ev = {"op": op["op"], "exc": ""}
        try:
            getattr(self, "do_" + op["op"])(op, ev)
        except Exception:
            ev["exc"] = drv.exc_name()
            import traceback
            ev["tb"] = traceback.format_exc()[-700:]
        return ev

    def two(self, op):
        return mk(op["a"], op["ka"]), mk(op["b"], op["kb"])

    # -- C21
    def do_lev(self, op, ev):
        a, b = self.two(op)
        ev["dist"] = drv.i(levenshtein(a, b))
        ev["back"] = drv.i(levenshtein(b, a))
        ev["norm"] = n(normalized_levenshtein(a, b))
        ev["kept"] = (a, b) == self.two(op)

    def do_lcs(self, op, ev):
        a, b = self.two(op)
        r = longest_common_subsequence(a, b)
        ev["res"] = lst(r)
        ev["form"] = form(r)
        ev["norm"] = n(normalized_lcs(a, b), 1000)
        ev["kept"] = (a, b) == self.two(op)

    def do_median(self, op, ev):
        q = [mk(x, op["ka"]) for x in op["strings"]]
        f = {"lev": levenshtein, "lcs": lambda x, y: len(x) + len(y) - 2 * len(longest_common_subsequence(x, y)),
             "len": lambda x, y: abs(len(x) - len(y)) / 3.0}[op["dist"]]
        ev["res"] = lst(set_median_string(q, f))
        ev["kept"] = q == [mk(x, op["ka"]) for x in op["strings"]]

    # -- C22
    def table(self, op, t):
        """with a "den", similarities and costs are exact binary fractions, stated in units of 1/den"""
        den = op.get("den", 1)
        return sorted([i, j, drv.i(v[0]) if den == 1 else drv.i(int(v[0] * den)) if v[0] * den == int(v[0] * den) else drv.BIG] for (i, j), v in t.items())

    def costs(self, op):
        den = op.get("den", 1)
        if den == 1:
            return (lambda x, y: op["sim"][x][y]), (lambda x: op["gap"][x])
        return (lambda x, y: op["sim"][x][y] / float(den)), (lambda x: op["gap"][x] / float(den))

    def do_global(self, op, ev):
        a, b = self.two(op)
        t, al = needleman_wunsch(a, b, *self.costs(op))
        self.seen(op, ev, a, b, t, al)

    def do_local(self, op, ev):
        a, b = self.two(op)
        t, al = smith_waterman(a, b, *self.costs(op))
        self.seen(op, ev, a, b, t, al)

    def seen(self, op, ev, a, b, t, al):
        ev["table"] = self.table(op, t)
        ev["steps"] = sorted([i, j, str(v[1])] for (i, j), v in t.items())
        ev["pairs"] = [list(p) for p in al]
        if op.get("print"):
            f, g = StringIO.StringIO(), StringIO.StringIO()
            nw.print_scores(a, b, t, stdout=f)
            nw.print_alignment(a, b, al, stdout=g)
            ev["printed"] = {"scores": grid(f.getvalue(), 0), "pairs": grid(g.getvalue(), 1)}

    def do_eggert(self, op, ev):
        a, b = self.two(op)
        sim, gap = self.costs(op)
        t, al = waterman_eggert(a, b, sim, gap, limit=op["limit"])
        ev["tables"] = [self.table(op, x) for x in t[:1]] + [[] for x in t[1:]]
        ev["all"] = [[list(p) for p in x] for x in al]
        ev["fewer"] = [[list(p) for p in x] for x in waterman_eggert(a, b, sim, gap, op["less"])[1]]

    # -- C23
    def do_ngrams(self, op, ev):
        a = mk(op["a"], op["ka"])
        kw = {}
        if op["pad"] >= 0:
            kw["pad_size"] = op["pad"]
        if op["with"] != "_":
            kw["pad_string"] = str(op["with"])
        r = ngram.n_gram_slices(a, op["n"], **kw)
        ev["slices"] = [lst(x) for x in r]
        ev["forms"] = sorted(set(form(x) for x in r))
        if op["sep"] != " ":
            kw["separator"] = str(op["sep"])
        ev["strings"] = lst(ngram.n_gram_strings(a, op["n"], **kw))
        ev["kept"] = a == mk(op["a"], op["ka"])

    def do_range(self, op, ev):
        a = mk(op["a"], op["ka"])
        kw = {}
        if op["sizes"]:
            kw["pad_sizes"] = op["sizes"]
        if op["with"] != "_":
            kw["pad_string"] = str(op["with"])
        r = ngram.n_gram_slices_range(a, op["ns"], pad=op["on"], **kw)
        ev["keys"] = sorted(r.keys())
        ev["res"] = [[lst(x) for x in r.get(k, [])] for k in op["ns"]]
        ev["kept"] = a == mk(op["a"], op["ka"])

    def do_sgrams(self, op, ev):
        a = mk(op["a"], op["ka"])
        args = () if op["d"] < 0 else (op["d"],)
        ev["res"] = [lst(x) for x in sgram.skip_bigram_slices(a, *args)]
        ev["padded"] = [lst(x) for x in sgram.padded_skip_bigram_slices(a, *args)]
        ev["kept"] = a == mk(op["a"], op["ka"])

    def do_rouge_n(self, op, ev):
        refs = [mk(x, op["ka"]) for x in op["refs"]]
        ev["res"] = n(rouge.rouge_n(mk(op["a"], op["ka"]), refs, op["n"]))
        ev["kept"] = refs == [mk(x, op["ka"]) for x in op["refs"]]

    def do_rouge_l(self, op, ev):
        a, b = self.two(op)
        ev["res"] = n(rouge.rouge_l(a, b, beta=op["beta"]) if op["beta"] != 1 else rouge.rouge_l(a, b))
        ev["kept"] = (a, b) == self.two(op)

    def do_rouge_s(self, op, ev):
        a, b = self.two(op)
        kw = {}
        if op["beta"] != 1:
            kw["beta"] = op["beta"]
        if op["d"] >= 0:
            kw["distance_limit"] = op["d"]
        ev["res"] = n(rouge.rouge_s(a, b, **kw))
        ev["su"] = n(rouge.rouge_su(a, b, **kw))
        ev["kept"] = (a, b) == self.two(op)

    # -- C24
    def do_sim(self, op, ev):
        a, b = self.two(op)
        for m in ("jaccard", "dice", "tanimoto", "overlap_min", "overlap_max", "sym_token_match"):
            ev[m] = n(getattr(similar, m)(a, b))
        ev["overlap"] = n(similar.overlap(a, b))
        ev["cosine"] = n(similar.cosine(a, b), 1000)
        ev["type_match"] = drv.i(similar.type_match(a, b))
        ev["token_match"] = drv.i(similar.token_match(a, b))
        ev["kept"] = (a, b) == self.two(op)

    def do_gsim(self, op, ev):
        q = [mk(x, op["ka"]) for x in op["seqs"]]
        ev["dice"] = n(similar.generalized_dice(q))
        ev["jaccard"] = n(similar.generalized_jaccard(q))
        ev["cosine"] = n(similar.generalized_cosine(q), 1000)
        ev["kept"] = q == [mk(x, op["ka"]) for x in op["seqs"]]

    def do_tfidf(self, op, ev):
        q = [mk(x, op["ka"]) for x in op["docs"]]
        kw = {}
        if op["norm"]:
            kw["normalized"] = True
        if op["f"] == "idf":
            t, w = tf_idf.idf(q, **kw)
        else:
            if op["ind"]:
                kw["indicator"] = True
            t, w = tf_idf.tf_idf(q, **kw)
        ev["terms"] = lst(t)
        ev["weights"] = [[n(x) for x in r] for r in w]
        ev["kept"] = q == [mk(x, op["ka"]) for x in op["docs"]]


drv.main(H)
