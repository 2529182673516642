#!/usr/bin/python3
from mkseed import seed
GP = '''
from daeso.gb.graphbank import GraphBank
from daeso.graph.daesograph import DaesoGraph
from daeso.pgc.graphpair import GraphMatching, GraphMapping, GraphPair
from daeso.pgc.corpus import ParallelGraphCorpus
from daeso.pair import Pair
import xml.etree.ElementTree as et, copy, sys, os

def graph(i, ns="ab"):
    g = DaesoGraph(id=i)
    for n in ns: g.add_node(n, "np", ["x"])
    return g
def pair(cls=GraphPair, s="s1", t="t1", b1="/tmp/no/b1.xml", b2="/tmp/no/b2.xml"):
    return cls(Pair(GraphBank(b1, "graphml"), GraphBank(b2, "graphml")), Pair(graph(s), graph(t)))
'''
seed("c01-clash", "C01", [("lib/daeso/pgc/graphpair.py", """                # remove old target node if it became unaligned
                if self.degree(old_target) == 0:""", """                # remove old target node if it became unaligned
                if self.in_degree(old_target) == 0:""")],
     "a source node with the name of the target node that is freed by re-aligning another source node",
     "re-aligning a source node silently drops the alignment of a source node named like the freed target node",
     GP + '''
p = pair(GraphMatching)
p.add_align(Pair("a", "b"), "equals")
p.add_align(Pair("b", "c"), "restates")
p.add_align(Pair("a", "d"), "equals")
assert p.get_align(Pair("b", "c")) == "restates", p.alignments()
assert len(p) == 2
''')
seed("c02-length", "C02", [("lib/daeso/pgc/graphpair.py", "        return len(self.edges())\n", "        return sum(1 for targets in self.succ.itervalues() if targets)\n")],
     "a source node with more than one alignment",
     "the length of a mapping counts aligned source nodes instead of alignments",
     GP + '''
p = pair(GraphMapping)
p.add_align(Pair("a", "x"), "equals")
p.add_align(Pair("a", "y"), "restates")
assert len(p) == 2, len(p)
''')
seed("c03-missing-edge", "C03", [("lib/daeso/pgc/graphpair.py", """                try:
                    if other[nodes.source][nodes.target]["relation"] != rel:
                        # other has different relation 
                        return None
                except KeyError:
                    # other lacks this edge
                    return
""", """                if other.get_align(nodes) not in (rel, None):
                    # other has different relation 
                    return None
""")],
     "two graph pairs with the same number of alignments on different nodes",
     "graph pairs with different alignments are equal",
     GP + '''
p, q = pair(), pair()
p.add_align(Pair("a", "x"), "equals"); q.add_align(Pair("b", "x"), "equals")
assert not p == q and p != q
''')
seed("c04-slice-clamp", "C04", [("lib/daeso/pgc/corpus.py", "        return self[max(0, i):max(0, j):]\n", "        return self[i:j:]\n")],
     "a slice whose end lies further from the end than the corpus is long",
     "slices with an end before the start of the corpus are not empty",
     GP + '''
ps = [pair(s="s%d" % i) for i in range(3)]
c = ParallelGraphCorpus(ps, relations=["equals"])
for i in range(-8, 8):
    for j in range(-8, 8):
        assert list(c[i:j]) == ps[i:j], (i, j)
''')
seed("c05-prefix-meta", "C05", [("lib/daeso/utils/etree.py", "len(elem1) == len(elem2) and", "len(elem1) <= len(elem2) and")],
     "meta-data where one side has further children",
     "corpora are equal although one has meta-data that the other lacks",
     GP + '''
m1 = et.fromstring("<corpus_meta_data><a/></corpus_meta_data>")
m2 = et.fromstring("<corpus_meta_data><a/><annotator>x</annotator></corpus_meta_data>")
c, d = ParallelGraphCorpus(relations=["equals"], meta_data=m1), ParallelGraphCorpus(relations=["equals"], meta_data=m2)
assert not (c == d) and c != d
assert not (d == c) and d != c
''')
seed("c06-relpath-string", "C06", [("lib/daeso/pgc/corpus.py", """                out_dir = os.path.realpath(out_dir)
                file_elem.text = os.path.relpath(gb._file_path, out_dir)""", """                file_elem.text = os.path.relpath(gb._file_path, os.path.abspath(out_dir))""")],
     "writing with relative paths to a directory reached through a symbolic link",
     "the relative graphbank paths of a corpus written through a symbolic link point nowhere",
     GP + '''
b = os.path.realpath(".")
os.makedirs("real/deep/dir")
os.symlink(os.path.join(b, "real/deep/dir"), os.path.join(b, "link"))
p = pair(b1=os.path.join(b, "b1.xml"), b2=os.path.join(b, "b2.xml"))
p.add_align(Pair("a", "x"), "equals")
c = ParallelGraphCorpus([p], relations=["equals"])
c.write(os.path.join(b, "link", "c.pgc"))
d = ParallelGraphCorpus()
d.read(os.path.join(b, "link", "c.pgc"), graph_loading=3)
assert c == d, [x.get_file_path() for x in d[0].get_banks()]
''')
seed("c06-pprint-content", "C06", [("lib/daeso/utils/etree.py", """        if not elem.text or not elem.text.strip():
            elem.text = i + "  "
""", """        elem.text = i + "  "
""")],
     "pretty printing meta-data with mixed content",
     "text of meta-data elements that also have children is lost when pretty printing",
     GP + '''
m = et.fromstring("<corpus_meta_data>by hand<a/></corpus_meta_data>")
c = ParallelGraphCorpus([], relations=["equals"], meta_data=m)
c.write("c.pgc", pprint=True)
d = ParallelGraphCorpus(inf="c.pgc")
assert d.get_meta_data().text.strip() == "by hand"
''')
GB = GP + '''
XML = u"""<graphml><key id="label" for="node" attr.name="label"/><key id="tokens" attr.name="tokens"/>%s
<graph id="g1"><data key="tokens">a b</data><node id="n1"><data key="label">np</data><data key="tokens">a</data></node></graph>
<graph id="g2"><data key="tokens">c d</data><node id="n2"><data key="label">np</data><data key="tokens">c</data></node></graph>
</graphml>"""
def gb(name, extra=u""):
    f = open(name, "wb"); f.write((XML % extra).encode("utf-8")); f.close()
PGC = """<?xml version="1.0" encoding="utf-8"?>
<parallel_graph_corpus><graphbanks><file id="1" format="graphml">%s</file><file id="2" format="graphml">%s</file></graphbanks>
<node_relations><relation>equals</relation></node_relations><aligned_graphs>%s</aligned_graphs></parallel_graph_corpus>"""
def pgc(name, b1, b2, pairs):
    f = open(name, "w"); f.write(PGC % (b1, b2, "".join(
      '<graph_pair from_bank_id="%s" from_graph_id="%s" to_bank_id="%s" to_graph_id="%s"/>' % p for p in pairs))); f.close()
'''
seed("c07-relax-always", "C07", [("lib/daeso/pgc/corpus.py", """        if ( not os.path.exists(file_path) and 
             self.relax_gb_paths ):
            file_path = os.path.join(self.dir, 
                                     os.path.basename(file_path))
            file_path = os.path.realpath(file_path) """, """        if self.relax_gb_paths:
            local_path = os.path.join(self.dir, 
                                      os.path.basename(file_path))
            if os.path.exists(local_path):
                file_path = os.path.realpath(local_path) """)],
     "relaxed paths and a file of the same name beside the corpus while the named graphbank exists",
     "a graphbank is taken from the corpus' directory although it exists in its named location",
     GB + '''
os.mkdir("far")
gb("far/b1.xml"); gb("b1.xml"); gb("b2.xml")
pgc("c.pgc", "far/b1.xml", "b2.xml", [("1", "g1", "2", "g2")])
c = ParallelGraphCorpus(); c.read("c.pgc", relax_gb_paths=True)
assert os.path.samefile(c[0].get_source_bank().get_file_path(), "far/b1.xml")
''')
seed("c08-wrong-bank-id", "C08", [("lib/daeso/pgc/corpus.py", """                        # and finally we give it a new unique id
                        new_gb._id = str(len(graphbanks))
                        
                graph_pair_elem.set(attrib, new_gb._id)""", """                        # and finally we give it a new unique id
                        new_gb._id = str(len(graphbanks))
                        
                graph_pair_elem.set(attrib, old_gb.__dict__.get("_id") or new_gb._id)""")],
     "writing a corpus, joining it with another corpus over the same graphbanks in another order, and writing again",
     "graph pairs refer to graphbank ids of an earlier write",
     GB + '''
gb("b1.xml"); gb("b2.xml")
pgc("c.pgc", "b1.xml", "b2.xml", [("1", "g1", "2", "g2")])
pgc("d.pgc", "b2.xml", "b1.xml", [("1", "g1", "2", "g2")])
c, d = ParallelGraphCorpus(inf="c.pgc"), ParallelGraphCorpus(inf="d.pgc")
c.write("c2.pgc"); d.write("d2.pgc")
e = c + d
e.write("e.pgc")
f = ParallelGraphCorpus(inf="e.pgc")
assert f == e, [[b.get_file_path() for b in p.get_banks()] for p in f]
''')
seed("c09-key-precedence", "C09", [("lib/daeso/gb/graphml.py", """        try:
            return self._key_table[key_for][self._data_key]["name"]
        except KeyError:
            pass
""", """        try:
            return self._key_table["all"][self._data_key]["name"]
        except KeyError:
            pass
"""), ("lib/daeso/gb/graphml.py", """            return self._key_table["all"][self._data_key]["name"]
        except:
            raise""", """            return self._key_table[key_for][self._data_key]["name"]
        except:
            raise""")],
     "a key id defined both in general and for one component with different names",
     "data is stored under the name of the general key instead of the component's own",
     GB + '''
gb("b.xml", u'<key id="x" attr.name="general"/><key id="x" for="node" attr.name="special"/>')
s = open("b.xml").read().replace('<node id="n1">', '<data key="x">7</data><node id="n1"><data key="x">8</data>')
f = open("b.xml", "w"); f.write(s); f.close()
b = GraphBank("b.xml", "graphml"); b.load()
g = b.get_graph("g1")
assert g.graph.get("general") == "7" and g.node["n1"].get("special") == "8", (g.graph, g.node["n1"])
''')
seed("c09-context", "C09", [("lib/daeso/gb/graphml.py", """        elif attr_name == "tokens" and self._context[-2] == "node":  
            self._graph.set_node_token_string(self._node, attr_value)
        else:
            # set attribute of Daeso graph, node or edge,
            # depending on the context
            self._comp_attrs[attr_name] = attr_value
            
        self._data_key = None""", """        elif attr_name == "tokens" and self._context[-2] == "node":  
            self._graph.set_node_token_string(self._node, attr_value)
        else:
            # set attribute of Daeso graph, node or edge,
            # depending on the context
            self._comp_attrs[attr_name] = attr_value.strip()
            
        self._data_key = None""")],
     "attribute values that start or end with white space",
     "white space at the ends of attribute values is lost",
     GB + '''
gb("b.xml", u'<key id="x" for="node" attr.name="x"/>')
s = open("b.xml").read().replace('<node id="n1">', '<node id="n1"><data key="x"> 8\\n</data>')
f = open("b.xml", "w"); f.write(s); f.close()
b = GraphBank("b.xml", "graphml"); b.load()
assert b.get_graph("g1").node["n1"]["x"] == " 8\\n", repr(b.get_graph("g1").node["n1"])
''')
OG = '''
from daeso.graph.ograph import ODiGraph
from daeso.graph.daesograph import DaesoGraph
'''
seed("c10-edge-attrs", "C10", [("lib/daeso/graph/ograph.py", """            datadict=self.adj[u].get(v,{})
            datadict.update(attr_dict) 
            datadict.update(dd)
""", """            datadict=self.adj[u].get(v,dd)
            datadict.update(attr_dict) 
            datadict.update(dd)
""")],
     "edges given with an attribute dictionary that has a key of the common attributes, or that are shared between graphs",
     "edges share the attribute dictionaries they were given: changing one graph's edge changes the other's; common attributes win over the edge's own",
     OG + '''
e = [("a", "b", {"l": "1"})]
g, h = ODiGraph(), ODiGraph()
g.add_edges_from(e); h.add_edges_from(e)
g["a"]["b"]["l"] = "2"
assert h["a"]["b"]["l"] == "1"
''')
seed("c10-readd", "C10", [("lib/daeso/graph/ograph.py", """        if v not in self.succ: 
            self.succ[v]=OrderedDict()
            self.pred[v]=OrderedDict()
            self.node[v] = {}
        # add the edge""", """        if v not in self.succ: 
            self.succ[v]={}
            self.pred[v]=OrderedDict()
            self.node[v] = {}
        # add the edge""")],
     "a node first introduced as the target of an edge that later gets several successors",
     "successors of nodes introduced by an edge are not in insertion order",
     OG + '''
g = ODiGraph()
g.add_edge("r", "a")
for x in "zqkymwb": g.add_edge("a", x)
assert g.successors("a") == list("zqkymwb"), g.successors("a")
''')
seed("c11-yield-dag", "C11", [("lib/daeso/graph/daesograph.py", """            if v not in seen:
                if self.node_is_terminal(v, with_punct=with_punct,
                                         with_empty=with_empty):
                    terminals.append(v)
                seen[v] = True
""", """            if v not in seen:
                if self.node_is_terminal(v, with_punct=with_punct,
                                         with_empty=with_empty):
                    terminals.append(v)
                    seen[v] = True
                elif self[v]:
                    seen[v] = True
""")],
     "an excluded punctuation or empty leaf",
     "terminal yield does not terminate when it leaves out a leaf",
     OG + '''
import sys, threading, os
g = DaesoGraph(id="g", root="r")
for n, t in (("r", ["x"]), ("a", ["x"]), ("p", ["."])): g.add_node(n, "l", t)
g.add_edge("r", "a"); g.add_edge("r", "p")
out = []
def go(): out.append(g.terminal_yield("r", with_punct=False))
t = threading.Thread(target=go); t.setDaemon(True); t.start(); t.join(20)
print out
if out != [["a"]]:
    os._exit(1)
''')
seed("c11-empty-terminal", "C11", [("lib/daeso/graph/daesograph.py", """        return ( not self[n] and
                 ( with_punct or not self.node_is_punct(n) ) and
                 ( with_empty or not self.node_is_empty(n) ) )    """, """        return ( not self[n] and
                 ( with_punct or not self.node_is_punct(n) ) and
                 ( with_empty or not with_punct or not self.node_is_empty(n) ) )    """)],
     "leaving out both punctuation and empty nodes",
     "empty nodes are included when punctuation is left out as well",
     OG + '''
g = DaesoGraph(id="g", root="r")
for n, t in (("r", ["x"]), ("a", ["x"]), ("e", []), ("p", ["."])): g.add_node(n, "l", t)
for n in "aep": g.add_edge("r", n)
assert g.terminals(with_punct=False, with_empty=False) == ["a"]
assert g.terminal_yield("r", with_punct=False, with_empty=False) == ["a"]
''')
