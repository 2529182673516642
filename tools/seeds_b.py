#!/usr/bin/python3
from mkseed import seed
GB = '''
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphPair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pair import Pair
import sys, os

def graph(i, ns="abcd"):
    g = DaesoGraph(id=i, root=ns[0])
    for n in ns: g.add_node(n, "np", ["x"])
    return g
def pair(s="s1", t="t1", als=()):
    p = GraphPair(Pair(GraphBank("/tmp/no/b1.xml", "graphml"), GraphBank("/tmp/no/b2.xml", "graphml")), Pair(graph(s), graph(t)))
    for a, b, r in als: p.add_align(Pair(a, b), r)
    return p
'''
E = "lib/daeso/pgc/evaluate.py"
seed("c12-macro-n", "C12", [(E, """        n = len(self.relations)
        
        for m in AlignCounts.measure_keys:
            # I take""", """        n = len(AlignEval.relations)
        
        for m in AlignCounts.measure_keys:
            # I take""")],
     "an evaluation over another set of relations than the default one",
     "the overall macro mean is divided by the number of default relations",
     GB + '''
from daeso.pgc.evaluate import AlignEval
c = lambda: ParallelGraphCorpus(graph_pairs=[pair(als=[("a", "b", "yes"), ("b", "a", "no")])], relations=["yes", "no"])
e = AlignEval(relations=("yes", "no"))
e.add(c(), c(), "x")
e.run_eval()
assert abs(e.measure_stats["f"]["macro"]["mean"] - 1.0) < 1e-9, e.measure_stats
''')
seed("c12-micro-sd", "C12", [(E, """            mean = self.measure_stats[m]["micro"]["mean"] 
            sum_of_diff = 0.0""", """            mean = self.measure_stats[m]["macro"]["mean"] 
            sum_of_diff = 0.0""")],
     "several corpora of different size, so that the micro and macro mean differ",
     "the micro variance is taken around the macro mean",
     GB + '''
from daeso.pgc.evaluate import AlignEval
A, B = [("a", "b", "equals")], [("a", "b", "equals"), ("b", "c", "equals"), ("c", "d", "equals")]
c = lambda als: ParallelGraphCorpus(graph_pairs=[pair(als=als)])
e = AlignEval()
e.add(c(A), c(A), "x")
e.add(c(B), c(B[:1]), "y")
e.run_eval()
t = e["equals"]
m = 2 / 4.0
v = sum((x.measures["rec"] - m) ** 2 for x in t)
assert abs(t.measure_stats["rec"]["micro"]["mean"] - m) < 1e-9
assert abs(t.measure_stats["rec"]["micro"]["var"] - v) < 1e-9, (t.measure_stats, v)
''')
seed("c13-overall-sd", "C13", [("lib/daeso/pgc/agreement.py", "                    overall_dev += (self[row_label][col_label] - overall_av) ** 2",
                                "                    overall_dev += (self[row_label][col_label] - col_av) ** 2")],
     "three or more annotators, whose column means differ",
     "the overall standard deviation is taken around the column means",
     '''
from daeso.pgc.agreement import AnalysesTable
import math
t = AnalysesTable(["A", "B", "C"])
vals = dict(A=dict(B=.5, C=.25), B=dict(A=1., C=.75), C=dict(A=.5, B=0.))
for k in vals: t[k].update(vals[k])
t.calculate_statistics()
xs = [v for d in vals.values() for v in d.values()]
m = sum(xs) / 6
assert abs(t["SD"]["overall"] - math.sqrt(sum((x - m) ** 2 for x in xs) / 5)) < 1e-9, t
''')
seed("c14-target-multi", "C14", [("lib/daeso/pgc/pgcstats.py", """        attr = graphs.target.graph
        attr["to_align"] = attr.get("to_align", 0) + 1""", """        attr = graphs.target.graph
        attr["to_align"] = attr.get("from_align", 0) + 1""")],
     "a target graph that is aligned to several source graphs",
     "graphs aligned several times as target count as single aligned",
     '''
import os, io
G = u"""<?xml version="1.0" encoding="utf-8"?>
<graphml xmlns="http://graphml.graphdrawing.org/xmlns">
<key id="l" for="node" attr.name="label" attr.type="string"/><key id="t" for="node" attr.name="tokens" attr.type="string"/>
<key id="r" for="graph" attr.name="root" attr.type="string"/><key id="k" for="graph" attr.name="tokens" attr.type="string"/>
%s</graphml>"""
g = lambda i: u'<graph edgedefault="directed" id="%s"><data key="r">n0</data><data key="k">x</data><node id="n0"><data key="l">np</data><data key="t">x</data></node></graph>' % i
io.open("a.xml", "w", encoding="utf-8").write(G % u"".join(g("s%d" % k) for k in (1, 2)))
io.open("b.xml", "w", encoding="utf-8").write(G % g("t1"))
C = u"""<?xml version="1.0" encoding="utf-8"?>
<parallel_graph_corpus><graphbanks><file format="graphml" id="f1">a.xml</file><file format="graphml" id="f2">b.xml</file></graphbanks>
<relations><relation>equals</relation></relations><graph_pairs>%s</graph_pairs></parallel_graph_corpus>"""
from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_ALL
from daeso.gb.graphbank import GraphBank
from daeso.pgc.graphpair import GraphPair
from daeso.pair import Pair
b1 = GraphBank("a.xml", "graphml"); b1.load(); b2 = GraphBank("b.xml", "graphml"); b2.load()
c = ParallelGraphCorpus(relations=["equals"])
for k in (1, 2):
    p = GraphPair(Pair(b1, b2), Pair(b1.get_graph("s%d" % k), b2.get_graph("t1")))
    p.add_align(Pair(p.get_graphs().source.root, p.get_graphs().target.root), "equals")
    c.append(p)
c.write("c.pgc")
from daeso.pgc.pgcstats import pgc_stats
pt, gt = pgc_stats(["c.pgc"], with_empty_nodes=True, with_failed_parses=True, with_punc=True)
assert gt["CGA"].overall == 3, dict(gt)
assert gt["CGMA"].overall == 1 and gt["CGSA"].overall == 2, (gt["CGSA"], gt["CGMA"])
''')
seed("c15-separator", "C15", [("lib/daeso/stats/table.py", '        return l.startswith("----")', '        return l.startswith("--")')],
     "a row whose name starts with two dashes",
     "rows are lost when a written table is read back",
     '''
from daeso.pgc.pgcstats import PgcStatsTable
t = PgcStatsTable(size=2)
t["CORPUS"][0], t["CORPUS"][1] = "--draft.pgc", "b.pgc"
t["CNP"][0], t["CNP"][1] = 3, 4
t.summarize()
t.write(out=open("t", "w")) if 0 else None
f = open("t", "w"); t.write(out=f); f.close()
u = PgcStatsTable()
u.read("t")
assert list(u["CORPUS"]) == ["--draft.pgc", "b.pgc"] and list(u["CNP"]) == [3, 4], dict(u)
''')
seed("c16-numbering", "C16", [("lib/daeso/pgc/diff.py", """        uniq1.sort(cmp=cmp_nodes)
        align_count = print_alignments(align_count, annot1 + " only",""", """        uniq1.sort(cmp=cmp_nodes)
        print_alignments(align_count, annot1 + " only","""),
                              ("lib/daeso/pgc/diff.py", """        uniq2.sort(cmp=cmp_nodes)
        align_count = print_alignments(align_count, annot2 + " only",""", """        uniq2.sort(cmp=cmp_nodes)
        align_count += len(uniq1)
        align_count += print_alignments(0, annot2 + " only",""")],
     "a graph pair in which both annotators have an alignment the other lacks",
     "the numbering of the differences starts again at one",
     GB + '''
from daeso.pgc.diff import pgc_diff
from StringIO import StringIO
def gr(i):
    g = DaesoGraph(id=i, root="0")
    for n in "0123": g.add_node(n, "np", ["x"], begin="0", end="1")
    g.tokens = ["x"]; g.graph["tokens"] = "x"
    return g
def pr(als):
    p = GraphPair(Pair(GraphBank("/tmp/no/b1.xml", "graphml"), GraphBank("/tmp/no/b2.xml", "graphml")), Pair(gr("s"), gr("t")))
    for a, b in als: p.add_align(Pair(a, b), "equals")
    return p
c, d = [ParallelGraphCorpus(graph_pairs=[pr(a)]) for a in ([("0", "0"), ("1", "1")], [("2", "2"), ("3", "3")])]
out = StringIO()
pgc_diff(c, d, out=out)
nums = [l.strip() for l in out.getvalue().split("\\n") if l.startswith("#") and l.strip().endswith(":") and l[1:2].isdigit()]
assert nums == ["#1:", "#2:", "#3:", "#4:"], nums
''')
seed("c17-nested-ignore", "C17", [("lib/daeso/ptc/ielemtree.py", "                self.index_elem(child, ignore=True)", "                self.index_elem(child, ignore=elem.tag in self.ignoreTags)")],
     "an element nested two levels deep in an ignored element",
     "elements deep inside an ignored element are not ignored",
     '''
from daeso.ptc.ielemtree import IndexElemTree
from xml.etree.cElementTree import XML
t = IndexElemTree(); t._setroot(XML("<r><note><p><s>x</s></p></note><s>y</s></r>"))
t.update(ignoreTags=["note"])
s = t.find(".//s")
assert s.get("_ignore") and s.get("_start") is None, s.attrib
''')
seed("c18-clear-method", "C18", [("lib/daeso/ptc/document.py", "        self.alignment[:] = []\n", "        self.alignment.clear()\n")],
     "a document aligned by id that is written after its alignments were extracted again",
     "clearing the alignments also drops the alignment method, so the links can no longer be resolved",
     '''
from daeso.ptc.document import HitaextDoc
for n in "ab": f = open(n + ".xml", "w"); f.write('<t><s id="x1">u</s><s id="x2">v</s></t>'); f.close()
d = HitaextDoc(); d.set_filename("from", "a.xml"); d.set_filename("to", "b.xml")
d.set_alignment_method("id")
d.add_id_alignment("s", "x1", "s", "x2")
ts = d.get_doc_trees(); d.inject_alignments(*ts); d.extract_alignments(*ts)
d.write("d.ptc")
e = HitaextDoc(file="d.ptc")
ts = e.get_doc_trees(); e.inject_alignments(*ts)
al = [(f.get("id"), g.get("id")) for f in ts.source.getiterator() for g in f.get("_alignments")]
assert al == [("x1", "x2")], al
''')
seed("c19-tags", "C19", [("lib/daeso/ptc/evaluate.py", """        if ( link_elem.get('from_tag') == tag and 
             link_elem.get('to_tag') == tag ):""", """        if link_elem.get('from_tag') == tag:""")],
     "a link between elements with different tags",
     "alignments with another tag on the target side are counted",
     '''
from daeso.ptc.document import HitaextDoc
from daeso.ptc.evaluate import count_alignment
def doc(links):
    d = HitaextDoc(); d.set_filename("from", "a.xml"); d.set_filename("to", "b.xml")
    for l in links: d.add_n_alignment(*l)
    return d
n = count_alignment(doc([("s", 1, "s", 1), ("s", 2, "p", 1)]), doc([("s", 1, "s", 1)]), "s")
assert n == (1, 1, 1), n
''')
seed("c20-cross-equal", "C20", [("lib/daeso/ptc/textalign.py", "                if i > source_n and j < target_n:", "                if i > source_n and j <= target_n:")],
     "a target element that is aligned to a later source element first",
     "many-to-one alignments are taken for crossing ones",
     '''
import sys, types
m = types.ModuleType("daeso_nl"); ms = types.ModuleType("daeso_nl.string"); mw = types.ModuleType("daeso_nl.string.stopword")
mw.remove_stopwords = lambda *a, **k: a[0]
sys.modules.update({"daeso_nl": m, "daeso_nl.string": ms, "daeso_nl.string.stopword": mw})
from daeso.ptc.textalign import no_cross_filter_factory
from daeso.pair import Pair
E = lambda n: dict(_n=n)
a, b, x = E(1), E(2), E(1)
got = no_cross_filter_factory(0.1)([(0.9, Pair(b, x)), (0.5, Pair(a, x))])
assert len(got) == 2, got
''')
seed("c21-identity", "C21", [("lib/daeso/string/levenshtein.py", "            if s1[j - 1] != s2[i - 1]:", "            if s1[j - 1] is not s2[i - 1]:")],
     "sequences of equal but not identical elements, as tokens that come from different files",
     "equal tokens cost a substitution",
     '''
from daeso.string.levenshtein import levenshtein
d = levenshtein("the cat".split(), ["".join(["t", "he"]), "".join(["ca", "t"])])
assert d == 0, d
''')
seed("c22-sw-gap", "C22", [("lib/daeso/string/smith_waterman.py", """                (scores[i, j-1][0] + gap_cost(seq2[j-1]), "L"),
                (0, "T")""", """                (scores[i, j-1][0] + gap_cost(seq1[i-1]), "L"),
                (0, "T")""")],
     "gap costs that depend on the element that is skipped",
     "skipping an element of the second sequence costs what the element of the first does",
     '''
from daeso.string.smith_waterman import smith_waterman
sim = lambda a, b: 3 if a == b else -9
gap = lambda e: -1 if e == "x" else -9
scores, al = smith_waterman("ab", "axb", sim, gap)
assert al == [(0, 0), (1, 2)], al
''')
seed("c23-beta", "C23", [("lib/daeso/string/rouge.py", """    matches_count = float(len(matches))
    
    try:
        recall = matches_count / len(skip_bigrams1)
        precision = matches_count / len(skip_bigrams2)
        
        return ( ((1 + beta ** 2) * precision * recall )  /
                 (beta ** 2 * precision + recall) )""", """    matches_count = float(len(matches))
    
    try:
        recall = matches_count / len(skip_bigrams1)
        precision = matches_count / len(skip_bigrams2)
        
        return ( ((1 + beta ** 2) * precision * recall )  /
                 (beta * precision + recall) )""")],
     "a beta other than one",
     "ROUGE-S weighs recall with beta instead of its square",
     '''
from daeso.string.rouge import rouge_s
f = rouge_s("abc", "ab", beta=2)
r, p = 1 / 3.0, 1.0
assert abs(f - 5 * p * r / (4 * p + r)) < 1e-9, f
''')
seed("c24-dice", "C24", [("lib/daeso/string/similar.py", "        return float(len(sequences) * len(intersection)) / count", "        return float(2 * len(intersection)) / count")],
     "three or more sequences",
     "the generalized Dice coefficient of identical sequences is not one",
     '''
from daeso.string.similar import generalized_dice
assert generalized_dice([["a"], ["a"], ["a"]]) == 1.0
''')
seed("c25-duizend", "C25", [("lib/daeso/string/number.py", "        elif i == 1 and triple == \"001\":", "        elif i == 1 and triple == \"001\" and len(s) == 1:")],
     "a number of millions that ends in one thousand and something",
     "a thousand within a larger number is spelled as eenduizend",
     '''
from daeso.string.number import spell_out_number as f
assert f(1001000) == "een miljoen duizend", f(1001000)
assert f(1001) == "duizend een", f(1001)
''')
seed("c26-sliding", "C26", [("lib/daeso/thirdparty/GenericCache/GenericCache.py", """        self.lru.update(key)
        return value.value""", """        self.lru.update(value)
        value.__cache_timestamp = time.time()
        return value.value""")],
     "an entry that is fetched shortly before it expires",
     "fetching an entry extends its life, so it may never expire",
     '''
import sys
from daeso.thirdparty.GenericCache import GenericCache as GC
M = sys.modules[GC.__module__]
now = [1000.0]
impl = M
class clock(object):
    time = staticmethod(lambda: now[0])
impl.time = clock
c = GC(expiry=10)
c["a"] = 1
now[0] += 8
assert c.fetch("a") == 1
now[0] += 8
assert c.fetch("a") is None, "expired entry returned"
''')
seed("c27-generator-lock", "C27", [("lib/daeso/thirdparty/GenericCache/GenericCache.py", """    @synchronized
    def fetch_with_generator(""", """    def fetch_with_generator(""")],
     "two threads that miss the same key at the same time",
     "the generator runs twice and the threads get different values",
     '''
from daeso.thirdparty.GenericCache import GenericCache as GC
import threading, time
c, n, res = GC(), [], []
def gen():
    n.append(1); time.sleep(.5); return len(n)
ts = [threading.Thread(target=lambda: res.append(c.fetch_with_generator("k", gen))) for _ in range(3)]
for t in ts: t.start()
for t in ts: t.join()
assert len(n) == 1 and set(res) == set([1]), (n, res)
''')
seed("c28-setdefault", "C28", [("lib/daeso/thirdparty/odict.py", "    setdefault = MutableMapping.setdefault\n", "    setdefault = dict.setdefault\n")],
     "a key that was added by setdefault",
     "keys added by setdefault are missing from iteration",
     '''
from daeso.thirdparty.odict import OrderedDict
d = OrderedDict(); d["b"] = 1; d.setdefault("a", 2)
assert d.keys() == ["b", "a"] and list(d) == ["b", "a"] and d.items() == [("b", 1), ("a", 2)], (list(d), len(d))
''')
seed("c29-callers-matrix", "C29", [("lib/daeso/thirdparty/munkres.py", """            new_row = row[:]
            if total_rows > row_len:
                # Row too short. Pad it.
                new_row += [0] * (total_rows - row_len)
""", """            new_row = row
            if total_rows > row_len:
                # Row too short. Pad it.
                new_row = row + [0] * (total_rows - row_len)
""")],
     "a matrix with no more rows than columns that is used again after the assignment was computed",
     "computing the assignment changes the caller's cost matrix",
     '''
from daeso.thirdparty.munkres import Munkres
m = [[4, 1, 3], [2, 0, 5], [3, 2, 2]]
n = [r[:] for r in m]
got = Munkres().compute(m)
assert m == n, m
assert sum(m[i][j] for i, j in got) == 5
''')
seed("c30-chdir-replace", "C30", [("bin/pgc_chdir.py", "            file_el.text = to_path + file_el.text[i:]", "            file_el.text = file_el.text.replace(from_path, to_path)")],
     "a path in which the prefix occurs a second time",
     "pgc_chdir changes more than the prefix of the path",
     '''
import subprocess
doc = """<?xml version="1.0" encoding="utf-8"?>
<parallel_graph_corpus><graphbanks><file format="graphml" id="f1">../gb/x/../gb/a.xml</file></graphbanks><graph_pairs/></parallel_graph_corpus>"""
f = open("c.pgc", "w"); f.write(doc); f.close()
assert subprocess.call(["jython2", "/repo/bin/pgc_chdir.py", "c.pgc", "-p", "../gb", "new"]) == 0
s = open("c.pgc").read()
assert ">new/x/../gb/a.xml<" in s, s
''')
seed("c31-token-diff", "C31", [("lib/daeso/pgc/creation.py", "             len([t for t in target_tokens if t not in fd]))", "             len([t for t in td if t not in fd]))")],
     "a target sentence that repeats a word the source sentence lacks, and a minimum token difference",
     "repeated tokens of the target count once, so sentence pairs that differ enough are left out",
     '''
from daeso.pgc import creation
got = creation._token_diff("a b".split(), "a x x x".split())
assert got == 4, got
''')
