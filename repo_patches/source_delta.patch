From 8238583f29cb1a62505f0ecdbf3afccffc14afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 01/89] fix: roots_aligned looked at the source root twice

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index db5ccab..9986b10 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -321,7 +321,7 @@ class GraphMapping(GraphPairBase, DiGraph):
         """
         return self.has_edge(
             self._graphs.source.root ,
-            self._graphs.source.root)
+            self._graphs.target.root)
     
     
     def dump_alignments(self):
-- 
2.43.0


From 90e7c73180fa6758951bbbb92d199cfe0f338e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 02/89] fix: str() of a graph mapping raised TypeError

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 9986b10..cd2dd30 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -269,7 +269,7 @@ class GraphMapping(GraphPairBase, DiGraph):
             self.__class__.__name__,
             self._banks,
             self._graphs,
-            list.__str__(self),
+            self.alignments(),
             self._meta_data)
 
     
-- 
2.43.0


From f79dbb344a1ca5f24a54d417ddaa33f0855db79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 03/89] fix: graph pair constructor dropped meta-data without
 child elements

---
 lib/daeso/pgc/graphpair.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index cd2dd30..aeb7d8b 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -75,7 +75,10 @@ class GraphPairBase(object):
         # references to them. Therefore graphs are automatically destroyed if
         # they are no longer part of any graph pair.
         self._graphs = graphs
-        self._meta_data = meta_data or et.Element("graph_meta_data")
+        # an Element without children is false, but not without content
+        if not et.iselement(meta_data):
+            meta_data = meta_data or et.Element("graph_meta_data")
+        self._meta_data = meta_data
         
         
     def __eq__(self, other):
-- 
2.43.0


From 3167e638a0e93842ea3a0ca038730259482ee949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 04/89] fix: comparing graph pairs with and without meta-data
 raised AttributeError

---
 lib/daeso/pgc/graphpair.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index aeb7d8b..de07b4c 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -184,6 +184,8 @@ class GraphPairBase(object):
         if self._meta_data is other._meta_data:
             # both None or same object 
             return True
+        elif self._meta_data is None or other._meta_data is None:
+            return False
         else: 
             return equals(self._meta_data, other._meta_data)
     
-- 
2.43.0


From 3d1e1c3b517862cefa55b93bd090e4b2b6def0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 05/89] fix: equal graph pairs were also unequal (no __ne__)

---
 lib/daeso/pgc/graphpair.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index de07b4c..45e206a 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -109,6 +109,13 @@ class GraphPairBase(object):
                          self._meta_data_equal(other) )
         
         
+    def __ne__(self, other):
+        """
+        self.__ne__(self, other) <==> self != other
+        """
+        return not self == other
+        
+        
     def __deepcopy__(self, memo_dict):
         """
         Implements the copy protocol for copy.deepcopy(graph_pair), which only
-- 
2.43.0


From f6442b7ab2bdf77ebf7d8b1070e0758b43782b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 06/89] fix: equal pairs were also unequal (no __ne__)

---
 lib/daeso/pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/pair.py b/lib/daeso/pair.py
index 3003ce0..e0909c0 100644
--- a/lib/daeso/pair.py
+++ b/lib/daeso/pair.py
@@ -44,6 +44,10 @@ class Pair(object):
                      self.target == other.target )
         
         
+    def __ne__(self, other):
+        return not self == other
+        
+        
     def __repr__(self):
         return 'Pair(source={pair.source!r}, target={pair.target!r})'.format(
             pair=self) 
-- 
2.43.0


From 571c815c3d2d98877b7a4e2b7651c289792a5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 07/89] fix: comparing elements failed on non-ASCII text and
 told empty from absent text

---
 lib/daeso/utils/etree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4248e84..4f98dfd 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -50,8 +50,8 @@ def equals(elem1, elem2):
     """
     # as far as I can see, _ElementInterface lacks a __eq__ method
     return ( elem1.tag == elem2.tag and
-             str(elem1.text).strip() == str(elem2.text).strip() and
-             str(elem1.tail).strip() == str(elem2.tail).strip() and
+             (elem1.text or "").strip() == (elem2.text or "").strip() and
+             (elem1.tail or "").strip() == (elem2.tail or "").strip() and
              elem1.attrib == elem2.attrib and
              len(elem1) == len(elem2) and
              all([ equals(child1, child2)
-- 
2.43.0


From b3095d437ae291c23c8c46e08bd2aabc702d6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 08/89] fix: writing an element tree by file name left the file
 open and its end unwritten

---
 lib/daeso/utils/etree.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4f98dfd..f1746a7 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -32,14 +32,19 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     write element tree with xml header
     even when encoding is the default utf-8
     """
-    if not hasattr(file, "write"):
+    opened = not hasattr(file, "write")
+    if opened:
         file = open(file, "wb")
         
     if pprint:
         indent(etree.getroot())
         
-    file.write('<?xml version="1.0" encoding="utf-8"?>\n')
-    etree.write(file, "utf-8")
+    try:
+        file.write('<?xml version="1.0" encoding="utf-8"?>\n')
+        etree.write(file, "utf-8")
+    finally:
+        if opened:
+            file.close()
     
  
 def equals(elem1, elem2):
-- 
2.43.0


From 45fa9c2721b8b88ff5b856d2750c33a96b6ab87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 09/89] fix: comparing graphbanks raised OSError if a file does
 not exist

---
 lib/daeso/gb/graphbank.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 90dbf96..c765a7a 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -88,8 +88,14 @@ class GraphBank(object):
         reasons of simplicity and efficiency no attempt is made to analyse
         their contents.)
         """
-        return ( self._file_path == other._file_path or
-                 os.path.samefile(self._file_path, other._file_path))
+        if self._file_path == other._file_path:
+            return True
+        
+        try:
+            return os.path.samefile(self._file_path, other._file_path)
+        except OSError:
+            # a file which does not exist is no other file
+            return False
     
     
     def __ne__(self, other):
-- 
2.43.0


From 6e3a2377715d18ca8860be611d23e28765191c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 10/89] fix: comparing corpora with != raised TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b7a9896..1136663 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -350,7 +350,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__ne__(other) <==> corpsu != other
         """
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
     
       
     def __repr__(self):
-- 
2.43.0


From b73c9e3865ed3b991a3c652c0a0d64676a004950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 11/89] fix: repeating a corpus with n * corpus raised
 TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 1136663..4707876 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -374,7 +374,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__rmul__(n) <==> n * corpus
         """
-        return self.__mul__()
+        return self.__mul__(n)
          
     
     def __setitem__(self, index, value):
-- 
2.43.0


From ab46ffb03226c6f7f1298c68cb1f041f7f2a8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 12/89] fix: inserting a graph pair in a corpus raised
 NameError

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 4707876..724c5ba 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -498,7 +498,7 @@ class ParallelGraphCorpus(list):
         return list.index(self, graph_pair)
     
           
-    def insert(self, graph_pair):
+    def insert(self, index, graph_pair):
         """
         corpus.insert(index, graph_pair) -- insert graph_pair before index
         
@@ -509,7 +509,7 @@ class ParallelGraphCorpus(list):
         if not isinstance(graph_pair, GraphPair):
             raise TypeError("only GraphPair instances are allowed")
         
-        list.insert(self, i, graph_pair)
+        list.insert(self, index, graph_pair)
     
     
     def read(self, inf, graph_loading=LOAD_SPARSE, relax_gb_paths=False):
-- 
2.43.0


From 57cfb4e47dd0390e6bf50e2a8e8e7bf777e7c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 13/89] fix: corpus.pop failed without index and never returned
 the graph pair

---
 lib/daeso/pgc/corpus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 724c5ba..18fa24b 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -550,7 +550,10 @@ class ParallelGraphCorpus(list):
         Raises IndexError if corpus is empty or index is out of range.
         """
         # redundant graphbanks are automatically garbage collected
-        list.pop(self, index)
+        if index is None:
+            return list.pop(self)
+        else:
+            return list.pop(self, index)
     
     
     def purge(self, graph_pair=None):
-- 
2.43.0


From fa7179408d48691d57f3c30e2458e1fd9b3be717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 14/89] fix: comparing corpora with and without meta-data
 raised AttributeError

---
 lib/daeso/pgc/corpus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 18fa24b..e738413 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -682,6 +682,8 @@ class ParallelGraphCorpus(list):
         if self._meta_data is other._meta_data:
             # both None or same object 
             return True
+        elif self._meta_data is None or other._meta_data is None:
+            return False
         else: 
             return equals(self._meta_data, other._meta_data)
 
-- 
2.43.0


From 418676ddb00f4ed52bcd0d102cf47eea080913b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 15/89] fix: purging a graph pair without alignments purged the
 whole corpus

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index e738413..4037073 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -571,7 +571,7 @@ class ParallelGraphCorpus(list):
         # (difference between source and target banks is irelevant)
         old2new = {}
         
-        if graph_pair:
+        if graph_pair is not None:
             to_purge = [graph_pair]
         else:
             to_purge = self
-- 
2.43.0


From 09ed03d91b46341ff788e51bbcc0787c8a1ffade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 16/89] fix: corpus meta-data without child elements was not
 written

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 4037073..166b1cb 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1121,7 +1121,7 @@ class PGCGenerator(object):
     def _gen_pg_corpus(self, pg_corpus, out_dir, abs_path):
         root_elem = et.Element("parallel_graph_corpus")
         
-        if pg_corpus._meta_data:
+        if pg_corpus._meta_data is not None:
             root_elem.append(pg_corpus._meta_data)
         
         graphbanks_elem = et.SubElement(root_elem, "graphbanks")
-- 
2.43.0


From 5917d70385815764c9cbc37911f7384f56b9f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 17/89] fix: graph pair meta-data without child elements was
 not written

---
 lib/daeso/pgc/corpus.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 166b1cb..3cce7c0 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1162,7 +1162,11 @@ class PGCGenerator(object):
                 from_graph_id=graph_pair._graphs.source.id,
                 to_graph_id=graph_pair._graphs.target.id)
             
-            if graph_pair._meta_data:
+            # an Element without children is false, but not without content
+            if et.iselement(graph_pair._meta_data) and (
+                len(graph_pair._meta_data) or
+                graph_pair._meta_data.text or
+                graph_pair._meta_data.attrib ):
                 graph_pair_elem.append(graph_pair._meta_data)
             
             self._gen_node_pairs(graph_pair_elem, graph_pair)
-- 
2.43.0


From 0ec7eb4179a1b2bc137aaf911e86a87891b886d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 18/89] fix: a corpus with relative paths could not be read
 from a file-like object

---
 lib/daeso/pgc/corpus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 3cce7c0..40c1d2b 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -795,6 +795,9 @@ class PGCParser(object):
         elif isinstance(inf, file):
             # if input is a tty, dir becomes ""
             self.dir = os.path.dirname(inf.name)
+        else:
+            # relative to the current directory, as in PGCGenerator
+            self.dir = ""
             
         if pg_corpus is not None:
             assert isinstance(pg_corpus, ParallelGraphCorpus)
-- 
2.43.0


From 9b56a676ace7b7bdc3e3bea586d780ca9b2a689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 19/89] fix: user-defined meta-data was mistaken for corpus
 elements

---
 lib/daeso/pgc/corpus.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 40c1d2b..0de512d 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -811,6 +811,11 @@ class PGCParser(object):
         # use ElementTree's iterparse rather than expat, because we want to
         # store the meta-data as an Element
         for event, elem in et.iterparse(inf, ("start", "end")):
+            if ( self.in_meta_data and
+                 elem.tag not in ("corpus_meta_data", "graph_meta_data") ):
+                # user-defined meta-data may use any tag
+                continue
+            
             if event == "start":
                 try:
                     # search handler only
-- 
2.43.0


From 08e7d70b162dd993f8cbfa6917c275b86410053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 20/89] fix: reading a corpus failed if a graph pair aligns a
 graph with itself

---
 lib/daeso/gb/graphstub.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/daeso/gb/graphstub.py b/lib/daeso/gb/graphstub.py
index f3a1da5..a729172 100644
--- a/lib/daeso/gb/graphstub.py
+++ b/lib/daeso/gb/graphstub.py
@@ -83,17 +83,19 @@ class GraphStub(object):
         # In each client graph pair,
         # replace the graph stub by a full blown graph
         for graph_pair in self.clients:
-            # The logic below fails if source and target graph are identical,
-            # which should not occur anyway
-            assert not graph_pair._graphs.source is graph_pair._graphs.target
+            # Source and target graph may be identical, in which case the
+            # graph pair is registered twice as a client
+            graphs = graph_pair._graphs
             
-            if graph_pair._graphs.source is self:
-                graph_pair._graphs.source = graph
-            elif graph_pair._graphs.target is self:
-                graph_pair._graphs.target = graph
-            else:
-                raise ValueError( "{0} is no client of {}".format(
+            if not (graphs.source in (self, graph) or 
+                    graphs.target in (self, graph)):
+                raise ValueError( "{0} is no client of {1}".format(
                     graph_pair, self))
+            
+            if graphs.source is self:
+                graphs.source = graph
+            if graphs.target is self:
+                graphs.target = graph
         
         # If any of the graph pairs is deleted while for some reason the graph
         # stub is still alive, we don't want the stub to keep the graph alive
-- 
2.43.0


From e8fc317b03657dde92f776b39d0f4415e87318c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 21/89] fix: error messages on missing graphs or graphbanks
 failed on non-ASCII ids

---
 lib/daeso/gb/parser.py  | 6 +++---
 lib/daeso/pgc/corpus.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 657f920..d090547 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -88,13 +88,13 @@ class XmlGraphbankParser(object):
     
             
     def _check_for_unresolved_graphs(self, inf):
-        unresolved = [ '"{0}"'.format(id) 
+        unresolved = [ u'"{0}"'.format(id) 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
     
         if unresolved:
-            msg = ( "graphs with the following id's were not found"
-                    ' in graphbank file "{0}": {1}'.format(
+            msg = ( u"graphs with the following id's were not found"
+                    u' in graphbank file {0!r}: {1}'.format(
                         inf.name, 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 0de512d..a352ec6 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1032,20 +1032,20 @@ class PGCParser(object):
     
     def _missing_source_graph_error(self, elem):
         # TODO: report line number
-        raise DaesoError('source graph with id "{0}" not found in '
+        raise DaesoError(u'source graph with id "{0}" not found in '
                          'source graphbank with id "{1}"'.format(
                              elem.get("from_graph_id"),
                              elem.get("from_bank_id")))
     
     def _missing_target_graph_error(self, elem):
         # TODO: report line number
-        raise DaesoError('target graph with id "{0}" not found '
+        raise DaesoError(u'target graph with id "{0}" not found '
                          'in target graphbank with id "{1}"'.format(
                              elem.get("to_graph_id"),
                              elem.get("to_bank_id")))  
     
     def _missing_graph_bank_error(self, bank_id):
-        raise DaesoError('graphbank with id "{0}" not found'.format(
+        raise DaesoError(u'graphbank with id "{0}" not found'.format(
             bank_id))
     
     
-- 
2.43.0


From e02826722fe8050048d3de29326efab6b06e4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 22/89] fix: nodes of an ordered graph were not listed in
 insertion order

---
 lib/daeso/graph/ograph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 8a60bd9..52b8dfd 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -108,7 +108,9 @@ class ODiGraph(networkx.DiGraph):
 
         """
         self.graph = {} # dictionary for graph attributes
-        self.node = {} # dictionary for node attributes
+        # dictionary for node attributes, which is ordered because it is what
+        # more recent versions of networkx iterate over to list the nodes
+        self.node = OrderedDict()
         # We store two adjacency lists:
         # the  predecessors of node n are stored in the dict self.pred
         # the successors of node n are stored in the dict self.succ=self.adj
-- 
2.43.0


From 7811f0b4e208eb7bfefc9a1d24887f8b4d216173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 23/89] fix: creating an ordered graph from data raised
 NameError

---
 lib/daeso/graph/ograph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 52b8dfd..5867271 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -120,7 +120,9 @@ class ODiGraph(networkx.DiGraph):
 
         # attempt to load graph with data
         if data is not None:
-            convert.from_whatever(data,create_using=self)
+            networkx.convert.to_networkx_graph(data, create_using=self)
+            # conversion from another graph replaces the dict of nodes
+            self.node = OrderedDict((n, self.node[n]) for n in self.adj)
         # load graph attributes (must be after convert)
         self.graph.update(attr)
 
-- 
2.43.0


From 6818aba39ca18d623a1712aae1cefadb17b19a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 24/89] fix: nodes added together shared a single attribute
 dict

---
 lib/daeso/graph/ograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 5867271..356b35a 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -222,7 +222,7 @@ class ODiGraph(networkx.DiGraph):
             if n not in self.succ:
                 self.succ[n] = OrderedDict()
                 self.pred[n] = OrderedDict()
-                self.node[n] = attr
+                self.node[n] = attr.copy()
             else: # update attr even if node already exists            
                 self.node[n].update(attr)
 
-- 
2.43.0


From 6616736bb3eee4cf215494c741556a9e5ec4ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 25/89] fix: a wrong attribute dict for ordered graphs raised
 NameError

---
 lib/daeso/graph/ograph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 356b35a..fcda345 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -52,6 +52,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 from distutils.version import LooseVersion
 import networkx
+from networkx import NetworkXError
 
 if LooseVersion(networkx.__version__) < LooseVersion('1.0'):
     raise ImportError("networkx version 1.0 or later required" +
-- 
2.43.0


From dfee59d9eceddc2d672e1a059ae970662559c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 26/89] fix: a wrong attribute dict for Daeso graphs raised
 NameError

---
 lib/daeso/graph/daesograph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index b1d9ea5..ba53c87 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import string
 
+from networkx import NetworkXError
+
 from daeso.graph.ograph import ODiGraph
 
 # TODO:
-- 
2.43.0


From e447eea107bcdc9df4b80562793192c99cd2e4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 27/89] fix: subgraphs of an ordered graph were not ordered

---
 lib/daeso/graph/ograph.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index fcda345..d1facf8 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -377,4 +377,39 @@ class ODiGraph(networkx.DiGraph):
             self.pred[v][u] = datadict
 
 
-   
+    def subgraph(self, nbunch):
+        """Return the subgraph induced on nodes in nbunch.
+
+        Parameters
+        ----------
+        nbunch : list, iterable
+            A container of nodes which will be iterated through once.
+
+        Returns
+        -------
+        G : Graph
+            A subgraph of the graph with the same edge attributes.
+
+        Notes
+        -----
+        Nodes and edges are in the same order as in the original graph. The
+        graph, edge or node attributes just point to the original graph.
+        """
+        bunch = set(self.nbunch_iter(nbunch))
+        H = self.__class__()
+        
+        for n in self.succ:
+            if n in bunch:
+                H.node[n] = self.node[n]
+                H.succ[n] = OrderedDict()
+        
+        # predecessors are ordered independently of successors
+        for n in H.succ:
+            H.pred[n] = OrderedDict((u, self.pred[n][u]) 
+                                    for u in self.pred[n] if u in bunch)
+            for v in self.succ[n]:
+                if v in bunch:
+                    H.succ[n][v] = self.succ[n][v]
+                    
+        H.graph = self.graph
+        return H
-- 
2.43.0


From 7ba34f1790c3025432e5925f3af5bd69f7e65714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 28/89] fix: listing the non-terminals of a graph raised
 AttributeError

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index ba53c87..3bc6c6d 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -101,7 +101,7 @@ class DaesoGraph(ODiGraph):
     
     def non_terminals_iter(self):
         return ( node for node in self
-                 if self.is_non_terminal(node) )
+                 if self.node_is_non_terminal(node) )
     
     
     def non_terminals(self):
-- 
2.43.0


From 02702c986fd8ac49f6ef3699d6751c0ec851fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 29/89] fix: terminal yield of a node with a false id was that
 of the root

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 3bc6c6d..2f6aa5f 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -149,7 +149,7 @@ class DaesoGraph(ODiGraph):
         terminal nodes dominated by non-terminal node n (in pre-order)
         """
         # should work for both trees and graphs
-        queue = [n or self.root] # LIFO queue
+        queue = [self.root if n is None else n] # LIFO queue
         seen = {} # nodes seen      
         terminals = []  # list of terminal nodes in a DFS preorder
         
-- 
2.43.0


From 12ba67f894ed756e8162c304068942ad5b79ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 30/89] fix: root of GraphML graphs was never set

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 792d3c5..0cb3730 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -161,7 +161,7 @@ class GraphmlParser(XmlGraphbankParser):
             
             # set the root node, defined as a graph attribute like 
             # <data key="root">n0</data>
-            self._graph.root = self._graph.graph.get("graph")
+            self._graph.root = self._graph.graph.get("root")
             
             self._graph = None
             self._comp_attrs = None
-- 
2.43.0


From 70ebce0f67b5b57523dd54f6cda0ad464f875ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 31/89] fix: GraphML graph data following a node or edge was
 lost or attached to the edge

---
 lib/daeso/gb/graphml.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0cb3730..e810f74 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -144,8 +144,10 @@ class GraphmlParser(XmlGraphbankParser):
         if tag == "graph":
             self._end_graph()
         elif self._graph_wanted():
-            if tag in "node":
+            if tag == "node":
                 self._end_node()
+            elif tag == "edge":
+                self._end_edge()
             elif tag == "data":
                 self._end_data()
             elif tag == "default":
@@ -175,11 +177,12 @@ class GraphmlParser(XmlGraphbankParser):
             raise DaesoError("node must have a 'tokens' attribute")
         
         self._node = None
-        self._comp_attrs = None
+        # any following data belongs to the graph
+        self._comp_attrs = self._graph.graph
         
         
-    def end_edge(self):
-        self._comp_attrs = None
+    def _end_edge(self):
+        self._comp_attrs = self._graph.graph
     
      
     def _end_data(self):
-- 
2.43.0


From ebc619228520a9b734d90b1584ed5eb3142034f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 32/89] fix: default values of GraphML keys were ignored

---
 lib/daeso/gb/graphml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index e810f74..26d0061 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -119,8 +119,8 @@ class GraphmlParser(XmlGraphbankParser):
         # temporarily assign None to required arg label
         self._graph.add_node(n, label=None)
         self._comp_attrs = self._graph.node[n]
-        self._set_defaults()
         self._node = n 
+        self._set_defaults()
         
             
     def _start_edge(self, attrs):
@@ -143,6 +143,8 @@ class GraphmlParser(XmlGraphbankParser):
     def _end_element(self, tag):
         if tag == "graph":
             self._end_graph()
+        elif tag == "default":
+            self._end_default()
         elif self._graph_wanted():
             if tag == "node":
                 self._end_node()
@@ -150,8 +152,6 @@ class GraphmlParser(XmlGraphbankParser):
                 self._end_edge()
             elif tag == "data":
                 self._end_data()
-            elif tag == "default":
-                self._end_default()
                 
         self._context.pop()
         
@@ -209,7 +209,8 @@ class GraphmlParser(XmlGraphbankParser):
         
  
     def _char_data(self, data):
-        if self._graph_wanted():
+        # default values occur outside of any graph
+        if self._graph_wanted() or self._context[-1] == "default":
             self._char_data_buf += data   
             
             
-- 
2.43.0


From ac968814189a61dd5abe832968b0fb58df2c5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 33/89] fix: parsing graphbanks from strings or without a dict
 of graphs failed

---
 lib/daeso/gb/parser.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index d090547..8fe5cae 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -55,14 +55,13 @@ class XmlGraphbankParser(object):
         
     def parse_string(self, data, id2graph=None, sparse=False):
         # supports incremental parsing
-        self._id2graph = id2graph or {}
+        if id2graph is not None:
+            self._id2graph = id2graph
+        elif self._id2graph is None:
+            self._id2graph = {}
+            
         self._sparse = sparse
-
         self._parser.Parse(data, 0)
-        
-        if self._sparse:
-            self._check_for_unresolved_graphs()
-            
         return self._id2graph
 
         
@@ -70,11 +69,17 @@ class XmlGraphbankParser(object):
         self._parser.Parse("", 1) # end of data
         del self._parser # get rid of circular references
         
+        if self._sparse:
+            self._check_for_unresolved_graphs("<string>")
+        
         
     def parse_file(self, inf, id2graph=None, sparse=False):
         if not hasattr(inf, "read"):
             inf = open(inf)
             
+        if id2graph is None:
+            id2graph = {}
+            
         self._id2graph = id2graph
         self._sparse = sparse
         
@@ -82,12 +87,12 @@ class XmlGraphbankParser(object):
         ##del self._parser 
         
         if self._sparse:
-            self._check_for_unresolved_graphs(inf)
+            self._check_for_unresolved_graphs(inf.name)
             
         return self._id2graph
     
             
-    def _check_for_unresolved_graphs(self, inf):
+    def _check_for_unresolved_graphs(self, name):
         unresolved = [ u'"{0}"'.format(id) 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
@@ -95,7 +100,7 @@ class XmlGraphbankParser(object):
         if unresolved:
             msg = ( u"graphs with the following id's were not found"
                     u' in graphbank file {0!r}: {1}'.format(
-                        inf.name, 
+                        name, 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
         
-- 
2.43.0


From d15cce5e64ba934faf69ad5650998c99f7b89c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 34/89] fix: alignment evaluation closes the report file it
 opens

---
 lib/daeso/pgc/evaluate.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 7b3c519..e064136 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -305,11 +305,18 @@ class AlignEval(dict):
         write full evaluation 
 	"""
         if isinstance(out, basestring):
-            out = open(out, "w")
+            outf = open(out, "w")
+        else:
+            outf = out
             
-        self.write_alignment_only(out)
-        self.write_alignment_per_relation(out)
-        self.write_alignment_overall(out)
+        try:
+            self.write_alignment_only(outf)
+            self.write_alignment_per_relation(outf)
+            self.write_alignment_overall(outf)
+        finally:
+            # close (and hence flush) the file only if it was opened here
+            if outf is not out:
+                outf.close()
         
         
     def write_alignment_only(self, out=stdout):
-- 
2.43.0


From 2299335958fd461da88195f5c534fcd08d1e4373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 35/89] fix: agreement closes the pickle files it writes

---
 lib/daeso/pgc/agreement.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/agreement.py b/lib/daeso/pgc/agreement.py
index b3e34b7..f0b0d50 100644
--- a/lib/daeso/pgc/agreement.py
+++ b/lib/daeso/pgc/agreement.py
@@ -53,11 +53,23 @@ def run_eval(corpus_fns, annotators, pickle_fn=None, words_only=False):
     write_tables(tables)
     
     if pickle_fn:
-        pickle.dump((align_eval, tables), open(pickle_fn, "wb"))
+        dump((align_eval, tables), pickle_fn)
         
     return align_eval, tables
 
 
+def dump(results, pickle_fn):
+    """
+    Pickle results to a file
+    """
+    outf = open(pickle_fn, "wb")
+    
+    try:
+        pickle.dump(results, outf)
+    finally:
+        outf.close()
+
+
 def write_tables(tables):
     for rel, val in tables.items():
         print 80 * "="
@@ -94,7 +106,7 @@ def tableize(align_eval, pickle_fn=None):
             am.calculate_statistics()
             
     if pickle_fn:
-        pickle.dump(tables, open(pickle_fn, "wb"))
+        dump(tables, pickle_fn)
         
     return tables
            
@@ -124,7 +136,7 @@ def cross_evaluate(corpus_fns, annotators=None, pickle_fn=None,
     align_eval.run_eval()
         
     if pickle_fn:
-        pickle.dump(align_eval, open(pickle_fn, "wb"))
+        dump(align_eval, pickle_fn)
         
     return align_eval
 
-- 
2.43.0


From 086f0acb9161cbc5a58436afea13aa5508343264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 36/89] fix: graphs aligned more than once were counted as
 single aligned if aligned once on one side

---
 lib/daeso/gb/gbstats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 10b0109..0cd799c 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -245,8 +245,9 @@ def graph_is_aligned(graph):
 def graph_is_single_aligned(graph):
     # This function can be called after daeso.pgc.pgcstats.graph_pair_stats
     # has added the "from_align" and "to_align" attributes to graphs and nodes.
-    return ( graph.graph.get("from_align") == 1 or
-             graph.graph.get("to_align") == 1 )
+    # (a graph may be aligned as a source graph as well as a target graph).
+    return ( graph.graph.get("from_align", 0) +
+             graph.graph.get("to_align", 0) == 1 )
     
 
 def root_aligned(graph):
-- 
2.43.0


From 91861d34d55bc9f06440513cdf0c7ad52401c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 37/89] fix: graphbank statistics counted failed parses of
 graphs that were left out

---
 lib/daeso/gb/gbstats.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 0cd799c..ecdb147 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -134,11 +134,12 @@ def graph_stats(gb,
     gb_table["BANK"][i] = name
 
     for graph in gb:                                   
-        if graph.is_failed_parse():
-            if with_failed_parses:
-                gb_table["CGFP"][i] += 1
-            else:
-                continue
+        # postpone counting of failed parses, because the graph might be
+        # discarded for other reasons (e.g. because it is unaligned)
+        found_failed_parse = graph.is_failed_parse()
+        
+        if found_failed_parse and not with_failed_parses:
+            continue
         
         if not root_aligned(graph):
             if with_unaligned_roots:
@@ -163,6 +164,9 @@ def graph_stats(gb,
             else:
                 gb_table["CGMA"][i] += 1
         
+        if found_failed_parse:
+            gb_table["CGFP"][i] += 1
+        
         gb_table["CG"][i] += 1
         gb_table["CT"][i] += count_tokens(graph, with_punc)
         
-- 
2.43.0


From db93a0ae589c62370d725b4541ffa8811706143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 38/89] fix: pgc_stats.py always failed on the type of an
 option

---
 bin/pgc_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_stats.py b/bin/pgc_stats.py
index 9f58b45..02c200c 100755
--- a/bin/pgc_stats.py
+++ b/bin/pgc_stats.py
@@ -91,7 +91,7 @@ parser.add_argument(
 
 parser.add_argument(
     "-t", "--token_diff_threshold", 
-    type="int", 
+    type=int, 
     metavar="THRESHOLD",
     default=0, dest="threshold", 
     help="exclude graph pairs with a token difference below the threshold")
-- 
2.43.0


From 8a94d11a4a7998d7213926362ba9323717f3abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 39/89] fix: keep wide numbers apart in statistics tables

---
 lib/daeso/stats/table.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 7923f93..53d5955 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -56,7 +56,15 @@ class Column(list):
             
         
     def get_width(self, margin=2):
-        assert self.type == "string"
+        if self.type != "string":
+            # numbers are right-aligned, with at least one blank in between
+            values = list(self)
+            
+            if self.overall is not None:
+                values.append(self.overall)
+                
+            return max([self.width, len(self.label) + 1] +
+                       [len(self.format_value(v)) + 1 for v in values])
         
         try:
             widest = max([len(e) for e in self])
@@ -67,6 +75,13 @@ class Column(list):
         return max(len(self.label), widest) + margin
     
     
+    def format_value(self, value):
+        if self.type == "count":
+            return "%d" % value
+        else:
+            return "%.*f" % (self.prec, value)
+    
+    
     
         
 class StatsTable(OrderedDict):
@@ -106,16 +121,15 @@ class StatsTable(OrderedDict):
         out.write(lmargin * " ")
         
         for c in self.values():
+            w = c.get_width()
+            
             if c.type == "string":
-                w = c.get_width()
                 out.write(c.label.ljust(w))
                 format += "%-" + str(w) + "s"
             elif c.type == "count":
-                w = c.width
                 out.write(c.label.rjust(w))
                 format += "%" + str(w) + "d"
             else:
-                w = c.width
                 out.write(c.label.rjust(w))
                 format += "%" + str(w) + "." + str(c.prec) + "f"
                 
-- 
2.43.0


From dc1d23eb11fee56d68e502df45699e5deee392e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 40/89] fix: read back rows with empty or blank-containing
 names in statistics tables

---
 lib/daeso/stats/table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 53d5955..345574d 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -186,7 +186,12 @@ class StatsTable(OrderedDict):
                     continue            
             elif sep_count == 1:
                 # read body
-                value_row = l.strip().split()
+                # The string column comes first and may be empty or contain
+                # blanks; the numbers follow
+                value_row = l.rstrip("\n").rsplit(None, len(self) - 1)
+                
+                if len(value_row) < len(self):
+                    value_row.insert(0, "")
                 
                 for col, val in zip(self.values(), value_row):
                     if col.type == "string":
-- 
2.43.0


From edaf8ae7758571e4f10dd6aeb1d4529b2f1ad91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 41/89] fix: close files of statistics tables after reading and
 writing

---
 lib/daeso/stats/corpus.py | 4 +++-
 lib/daeso/stats/table.py  | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 141cde1..fc40a37 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -170,4 +170,6 @@ def write_table(table, fn, verbose=True):
     """
     if not table.is_empty():
         if verbose: print "Writing table", fn
-        table.write(out=file(fn, "w"))
\ No newline at end of file
+        out = file(fn, "w")
+        table.write(out=out)
+        out.close()
\ No newline at end of file
diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 345574d..75c0570 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -170,6 +170,11 @@ class StatsTable(OrderedDict):
                 
         if not hasattr(file, "read"):
             file = open(file, "r")
+            
+            try:
+                return self.read(file)
+            finally:
+                file.close()
         
         sep_count = 0
         rows = []
-- 
2.43.0


From e85bd3982d18d82724f75233dc76335a2b8ba24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 42/89] fix: restore current directory when corpus statistics
 fail

---
 lib/daeso/stats/corpus.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index fc40a37..a5fffd5 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -142,10 +142,11 @@ def stats(pgc_dir, pgc_files_pattern, with_unaligned_roots=False):
     else:
         pgc_files = glob(pgc_files_pattern)
         
-    pgc_table, gb_table = pgc_stats(pgc_files, 
-                                    with_unaligned_roots=with_unaligned_roots)
-
-    chdir(cwd)
+    try:
+        pgc_table, gb_table = pgc_stats(pgc_files, 
+                                        with_unaligned_roots=with_unaligned_roots)
+    finally:
+        chdir(cwd)
     
     return  pgc_table, gb_table
     
-- 
2.43.0


From 0190028a0740a268e28d5e9cb7c8c561ef799249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 43/89] fix: write all headings of a corpus comparison to the
 report

---
 lib/daeso/pgc/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index cf2d5b5..6fa8061 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -59,7 +59,7 @@ def pgc_diff(corpus1, corpus2,
     pair_count = 0
     
     header("%s corpus: %s\n%s corpus: %s" % (annot1, corpus_name1, annot2,
-                                             corpus_name2), width=120, char="#")
+                                             corpus_name2), out, width=120, char="#")
     
     for graph_pair1, graph_pair2 in zip(corpus1, corpus2):
         # assume that the corpora have the same graph pairs in the same order,
@@ -103,7 +103,7 @@ def pgc_diff(corpus1, corpus2,
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
         #    continue
             
-        header("Graph pair %d" % pair_count, width=120, char="=")
+        header("Graph pair %d" % pair_count, out, width=120, char="=")
         
         print >>out, graphs.source.get_graph_token_string().encode("utf-8"), "\n"
         print >>out, graphs.target.get_graph_token_string().encode("utf-8"), "\n"
-- 
2.43.0


From 16c4c3e0cb94ca33cb08e563857c4b94e571d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 44/89] fix: limit corpus comparison to words in both corpora

---
 lib/daeso/pgc/diff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 6fa8061..3c29dd4 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -77,8 +77,8 @@ def pgc_diff(corpus1, corpus2,
         
         for nodes, rel1 in graph_pair1.alignments_iter(relations=relations):
             if ( words_only and
-                 graphs.source.node_node_is_non_terminal(nodes.source) and
-                 graphs.target.node_is_non_terminal(nodes.target) ):
+                 ( graphs.source.node_is_non_terminal(nodes.source) or
+                   graphs.target.node_is_non_terminal(nodes.target) )):
                 continue
             
             rel2 = graph_pair2.get_align(nodes)
@@ -92,8 +92,8 @@ def pgc_diff(corpus1, corpus2,
             
         for nodes, rel2 in graph_pair2.alignments_iter(relations=relations):
             if ( words_only and
-                 ( graphs.source.node_is_terminal(nodes.source) or
-                   graphs.target.node_is_terminal(nodes.target) )):
+                 ( graphs.source.node_is_non_terminal(nodes.source) or
+                   graphs.target.node_is_non_terminal(nodes.target) )):
                 continue
             
             if not graph_pair1.get_align(nodes):
-- 
2.43.0


From 0e988da6aa3d9790b88c7e4f5cd7f6fae6e68b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 45/89] fix: report differences in relation in whichever corpus
 the relation was asked for

---
 lib/daeso/pgc/diff.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 3c29dd4..aca1428 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -96,8 +96,13 @@ def pgc_diff(corpus1, corpus2,
                    graphs.target.node_is_non_terminal(nodes.target) )):
                 continue
             
-            if not graph_pair1.get_align(nodes):
+            rel1 = graph_pair1.get_align(nodes)
+            
+            if not rel1:
                 uniq2.append(nodes)
+            elif relations and rel1 not in relations:
+                # not found above
+                rel_diff.append(nodes)
                     
         
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
-- 
2.43.0


From 74d97d4cd22664b2ac3649fab42ef23fc2e754e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 46/89] fix: empty comment in corpus comparison

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index aca1428..3e6b9af 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -178,6 +178,6 @@ def print_comments(graph_pair, annot, out, encoding="utf-8"):
     except AttributeError:
         return
     
-    if comment.strip():
+    if comment and comment.strip():
         header("Comments by " + annot, out, char="-")
         print >>out, comment.encode(encoding), "\n"
-- 
2.43.0


From c829a259c0c547ed2ed34ff1106c0ae5cdd12b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 47/89] fix: encode labels of source nodes once in corpus
 comparison

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 3e6b9af..d67804e 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -154,7 +154,7 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
             print >>out, "#%d:" % align_count 
             s = '(%s) %s [%s:%s]: "%s"' % (                
                 nodes.source,
-                graphs.source.node[nodes.source]["label"].encode("utf-8"),
+                graphs.source.node[nodes.source]["label"],
                 graphs.source.node[nodes.source]["begin"],
                 graphs.source.node[nodes.source]["end"],
                 graphs.source.get_node_token_string(nodes.source))
-- 
2.43.0


From abc735963fe807473aa2a58bc077ae37f8855a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 48/89] fix: mark ignored elements without children as ignored

---
 lib/daeso/ptc/ielemtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index 47fee79..e676a2b 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -98,8 +98,9 @@ class IndexElemTree(ElementTree):
         elem.set("_alignments", [])
         
         if ignore or elem.tag in self.ignoreTags: 
+            elem.set("_ignore", "true")
+            
             for child in elem.getchildren():
-                elem.set("_ignore", "true")
                 self.index_elem(child, ignore=True)
                 
             text = ""
-- 
2.43.0


From cb9270d2420f12194bcdc819a0e479f054f9cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 49/89] fix: stale text positions after changing the ignored
 tags

---
 lib/daeso/ptc/ielemtree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index e676a2b..613c761 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -97,6 +97,10 @@ class IndexElemTree(ElementTree):
         # it may be better to create this attribute on the fly
         elem.set("_alignments", [])
         
+        # attributes may be left over from an earlier update
+        for name in ("_start", "_end", "_ignore"):
+            elem.attrib.pop(name, None)
+        
         if ignore or elem.tag in self.ignoreTags: 
             elem.set("_ignore", "true")
             
-- 
2.43.0


From 41aa481fb949b9211a93bd58f2491588ed11d471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 50/89] fix: search for source and target text in the directory
 of the document

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 3296cdb..c7f9e88 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -95,7 +95,7 @@ class HitaextDoc(ElementTree):
                 # relative path
                 join(dirname(self.filename), fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(self.filename)) 
+                join(dirname(self.filename), basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From c9a6781a87c33531c01ff24f7c33fde64a1b7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 51/89] fix: close Hitaext document after writing

---
 lib/daeso/ptc/document.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index c7f9e88..928249d 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -176,6 +176,10 @@ class HitaextDoc(ElementTree):
         # if the encoding is utf-8
         if not hasattr(file, "write"):
             file = open(file, "w")
+            try:
+                return self.write(file, encoding)
+            finally:
+                file.close()
         print >>file, '<?xml version="1.0" encoding="utf-8"?>'
         ElementTree.write(self, file, "utf-8")
     
-- 
2.43.0


From 61c60c03dc319ed38bada6d98c6c34959caf4d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 52/89] fix: ptc_n_to_id.py always failed on its list of
 corpora

---
 bin/ptc_n_to_id.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bin/ptc_n_to_id.py b/bin/ptc_n_to_id.py
index ef44119..0d4ee57 100644
--- a/bin/ptc_n_to_id.py
+++ b/bin/ptc_n_to_id.py
@@ -53,25 +53,25 @@ parser.add_argument(
 
 args = parser.parse_args()
 
-if args.verbose:
-    print >>stderr, "Reading corpus from", args.corpus
+for fn in args.corpus:
+    if args.verbose:
+        print >>stderr, "Reading corpus from", fn
     
-corpus = HitaextDoc(file=args.corpus)
+    corpus = HitaextDoc(file=fn)
 
-from_tree = corpus.get_doc_tree("from")
-to_tree = corpus.get_doc_tree("to")
+    from_tree = corpus.get_doc_tree("from")
+    to_tree = corpus.get_doc_tree("to")
 
-from_tree.update()
-to_tree.update()
+    from_tree.update()
+    to_tree.update()
 
-corpus.inject_alignments(from_tree, to_tree)
+    corpus.inject_alignments(from_tree, to_tree)
 
-corpus.alignment.set("method", "id")
+    corpus.alignment.set("method", "id")
 
-corpus.extract_alignments(from_tree, to_tree)
+    corpus.extract_alignments(from_tree, to_tree)
 
-if args.verbose:
-    print >>stderr, "Writing corpus to", args.corpus
+    if args.verbose:
+        print >>stderr, "Writing corpus to", fn
     
-corpus.write(args.corpus)
-
+    corpus.write(fn)
-- 
2.43.0


From bbe6812db8cf51788acc2356425065a62fbe2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 53/89] fix: ptc_chdir.py failed on filenames of a single upper
 case letter

---
 bin/ptc_chdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/ptc_chdir.py b/bin/ptc_chdir.py
index 27f7565..1ef12ae 100755
--- a/bin/ptc_chdir.py
+++ b/bin/ptc_chdir.py
@@ -81,7 +81,7 @@ for fn in args.corpus:
             print >>stderr, "Current %s path is %s" %  (side, path)
         
         # a heuristic to deal with windows paths        
-        if path[0] in uppercase and path[1] == ":":
+        if path[0] in uppercase and path[1:2] == ":":
             # strip drive letter
             path = path[2:]
         path = path.replace("\\", "/")
-- 
2.43.0


From 062055a2ea4947cfe09b18fb3dbdcfefd1b29752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 54/89] fix: evaluate text alignments by position as well as by
 id

---
 lib/daeso/ptc/evaluate.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/evaluate.py b/lib/daeso/ptc/evaluate.py
index 0e5c4f2..e26a2a3 100644
--- a/lib/daeso/ptc/evaluate.py
+++ b/lib/daeso/ptc/evaluate.py
@@ -87,20 +87,38 @@ def eval_alignment(filename_pairs, tag, labels=None):
 
 def get_alignment(corpus, tag):
     alignments = set()
+    method = corpus.get_alignment_method() or "n"
     
     for link_elem in corpus.get_alignments():
         if ( link_elem.get('from_tag') == tag and 
              link_elem.get('to_tag') == tag ):
             alignments.add((
-                link_elem.get('from_id'),
-                link_elem.get('to_id')))
+                link_elem.get('from_' + method),
+                link_elem.get('to_' + method)))
             
     return alignments
 
 
+def convert_alignment(corpus):
+    """
+    convert id-based alignment to n-based alignment
+    """
+    if corpus.get_alignment_method() == "id":
+        doc_trees = corpus.get_doc_trees(search=True)
+        corpus.inject_alignments(doc_trees.source, doc_trees.target)
+        corpus.set_alignment_method("n")
+        corpus.extract_alignments(doc_trees.source, doc_trees.target)
+
+
 def count_alignment(true_corpus, pred_corpus, tag):
     # count per file, because we cannot collect alignments over multiple files
     # without id clashes
+    if ( (true_corpus.get_alignment_method() or "n") !=
+         (pred_corpus.get_alignment_method() or "n") ):
+        # elements are referred to in different ways
+        convert_alignment(true_corpus)
+        convert_alignment(pred_corpus)
+        
     true_alignments = get_alignment(true_corpus, tag)
     pred_alignments = get_alignment(pred_corpus, tag)
     
-- 
2.43.0


From 684a443d66d040a93e68fcf541064549c2af1e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 55/89] fix: compare text alignments of elements without an id

---
 lib/daeso/ptc/diff.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index d668866..e796f96 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -56,7 +56,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for true_to_elem in true_from_elem.get("_alignments"):
 
             for pred_to_elem in pred_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -72,7 +72,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for pred_to_elem in pred_from_elem.get("_alignments"):
 
             for true_to_elem in true_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -87,6 +87,12 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                 
     
     
+def same_elem(true_elem, pred_elem):
+    # elements may lack an id, but the order of elements is the same
+    return ( true_elem.tag == pred_elem.tag and
+             true_elem.get("_n") == pred_elem.get("_n") )
+    
+    
 def read_corpus(corpus): 
     if not isinstance(corpus, HitaextDoc):
         corpus = HitaextDoc(file=corpus)
-- 
2.43.0


From c6065b028017ee621ecc9e69451fc5a0b629de55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 56/89] fix: leave out punctuation from preprocessed word
 n-grams

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index a53e686..27d61be 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -322,7 +322,7 @@ def preproc_word_n_gram_factory(n):
         # but does not return the tokens lower cased!!!
         text = [ token.lower()
                  for token in text.split()
-                 if text not in string.punctuation ]
+                 if token not in string.punctuation ]
         return n_gram_strings(text, n)
     
     func.__name__ = "preproc_word_%d_gram" % n
-- 
2.43.0


From b9eeb9c5ee509bf5132bdf1cb9007f0653505d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 57/89] fix: preprocessed character n-grams were word n-grams

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 27d61be..0fd0535 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -349,7 +349,7 @@ def preproc_char_n_gram_factory(n):
         text = remove_stopwords(text.lower().split(), 
                                 ignore_case=True, 
                                 remove_punc=True)
-        return n_gram_strings(list(text), n)
+        return n_gram_strings(list(" ".join(text)), n)
     
     func.__name__ = "preproc_char_%d_gram" % n
     return func
-- 
2.43.0


From a265f80dbb1eb152755eab931fa038f271039fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 58/89] fix: undefined order of equal scores in text alignment
 without crossing

---
 lib/daeso/ptc/textalign.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 0fd0535..2664383 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -435,7 +435,8 @@ def threshold_filter_factory(threshold):
 def no_cross_filter_factory(threshold):
     def func(scores):
         # sort scores in descending order
-        scores.sort(reverse=True)
+        # (in document order if equal)
+        scores.sort(key=lambda score: score[0], reverse=True)
         align_indices = []
         filtered_scores = []
         
-- 
2.43.0


From d1de0de760c48634034a7052dca5ab92e8592e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 59/89] fix: clear earlier alignments from given document trees
 in text alignment

---
 lib/daeso/ptc/textalign.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 2664383..2ffd09e 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -98,6 +98,9 @@ class TextAlignerBase(object):
         if clear:
             clear_alignments(corpus, self.focus_tags)
             
+            if doc_trees:
+                clear_elem_alignments(doc_trees, self.focus_tags)
+            
         if not doc_trees:
             doc_trees = Pair(
                 get_doc_tree(corpus, "from", self.ignore_tags.source),
@@ -293,7 +296,23 @@ def clear_alignments(corpus, focus_tags):
                             for link in corpus.alignment 
                             if ( link.get("from_tag") != focus_tags.source and 
                                  link.get("to_tag") != focus_tags.target) ]
-    
+
+
+def clear_elem_alignments(doc_trees, focus_tags):
+    for elem in doc_trees.source.getiterator():
+        elem.set("_alignments", 
+                 [ target_elem 
+                   for target_elem in elem.get("_alignments")
+                   if ( elem.tag != focus_tags.source and 
+                        target_elem.tag != focus_tags.target) ])
+        
+    for elem in doc_trees.target.getiterator():
+        elem.set("_alignments", 
+                 [ source_elem 
+                   for source_elem in elem.get("_alignments")
+                   if ( elem.tag != focus_tags.target and 
+                        source_elem.tag != focus_tags.source) ])
+        
 #-------------------------------------------------------------------------------
 # term extraction functions
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 4dce673c0f547c3feacce5592a48e95b6d18d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 60/89] fix: n-grams of unicode strings raised TypeError

---
 lib/daeso/string/ngram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/ngram.py b/lib/daeso/string/ngram.py
index 9bc5970..654d715 100644
--- a/lib/daeso/string/ngram.py
+++ b/lib/daeso/string/ngram.py
@@ -82,7 +82,7 @@ def pad(tokens, pad_size, pad_string="_"):
     """
     if type(tokens) == type(tuple()):
         return pad_size * (pad_string,) + tokens + pad_size * (pad_string,)
-    elif type(tokens) == type(""):
+    elif isinstance(tokens, basestring):
         return pad_size * pad_string + tokens + pad_size * pad_string
     else:
         return pad_size * [pad_string] + tokens + pad_size * [pad_string]
-- 
2.43.0


From 2a34848a6b8d7e763b73a8dbe462d2b23c5a0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 61/89] fix: longest common subsequence of unicode strings was
 a list

---
 lib/daeso/string/lcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/lcs.py b/lib/daeso/string/lcs.py
index 475f7c0..aa1ed5d 100644
--- a/lib/daeso/string/lcs.py
+++ b/lib/daeso/string/lcs.py
@@ -75,7 +75,7 @@ def longest_common_subsequence(seq1, seq2):
     LCS.reverse()
     
     # output same type as input seq
-    if type(seq1) == type(seq2) == type(""):
+    if isinstance(seq1, basestring) and isinstance(seq2, basestring):
         return "".join(LCS)
     elif type(seq1) == type(seq2) == type(()):
         return tuple(LCS)
-- 
2.43.0


From cdae72f73a4310b276e41de73182536548a2777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 62/89] fix: initial gaps in global alignment were not charged
 per element

---
 lib/daeso/string/needleman_wunsch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 2cac879..081022c 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -78,10 +78,10 @@ def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
     scores = {(0,0): (0, "T")}
     
     for i in range(1, len(seq1) + 1):
-        scores[i, 0] = (gap_cost(seq1[i-1]) * i, "U")
+        scores[i, 0] = (scores[i-1, 0][0] + gap_cost(seq1[i-1]), "U")
     
     for j in range(1, len(seq2) + 1):
-        scores[0, j] = (gap_cost(seq2[j-1]) * j, "L")
+        scores[0, j] = (scores[0, j-1][0] + gap_cost(seq2[j-1]), "L")
     
     for i in range(1, len(seq1) + 1):
         for j in range(1, len(seq2) + 1):
-- 
2.43.0


From 64afabb0e9345abf8ef0cfc193a9061f18ce4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 63/89] fix: local alignment without any positive score raised
 IndexError

---
 lib/daeso/string/smith_waterman.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/daeso/string/smith_waterman.py b/lib/daeso/string/smith_waterman.py
index f26ce9e..0f29185 100644
--- a/lib/daeso/string/smith_waterman.py
+++ b/lib/daeso/string/smith_waterman.py
@@ -100,6 +100,11 @@ def smith_waterman(seq1, seq2, sim_score, gap_cost):
             
     # find highest score
     positives = [(score, pair) for (pair, score) in scores.items() if score[0] > 0]
+    
+    if not positives:
+        # nothing in common
+        return scores, []
+    
     positives.sort()
     i,j = positives[-1][1]
     
-- 
2.43.0


From 3b491964e23a32ed5581cc7b2e1718dd733ed75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 64/89] fix: ROUGE-N above one for repeated n-grams

---
 lib/daeso/string/rouge.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 287b656..2891922 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -79,7 +79,16 @@ def count_match(candidate_ngrams, reference_ngrams):
     """
     # this implements Count_match(gram_n) from Lin04, section 2
     # implementation might be slow for long lists
-    return len([cng for cng in candidate_ngrams if cng in reference_ngrams])   
+    remaining = list(reference_ngrams)
+    count = 0
+    
+    for cng in candidate_ngrams:
+        # each ngram from the references can be matched only once
+        if cng in remaining:
+            remaining.remove(cng)
+            count += 1
+            
+    return count
     
 
 # ==============================================================================
-- 
2.43.0


From e573187252fa6577702f64d697ad10ce37f30f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 65/89] fix: ROUGE-L and ROUGE-S of empty or short sequences
 raised ZeroDivisionError

---
 lib/daeso/string/rouge.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 2891922..49c20b7 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -104,10 +104,11 @@ def rouge_l(candidate_tokens, reference_tokens, beta=1):
     beta determines the relative importance of recall in the F-measure
     """
     lcs = len(longest_common_subsequence(candidate_tokens, reference_tokens))
-    recall = lcs / float(len(reference_tokens))
-    precision = lcs / float(len(candidate_tokens))
 
     try:
+        recall = lcs / float(len(reference_tokens))
+        precision = lcs / float(len(candidate_tokens))
+        
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
@@ -144,10 +145,10 @@ def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
     # In the current implementation, X and Y are effectively considered sets (i.e. no duplicates). 
     matches_count = float(len(matches))
     
-    recall = matches_count / len(skip_bigrams1)
-    precision = matches_count / len(skip_bigrams2)
-    
     try:
+        recall = matches_count / len(skip_bigrams1)
+        precision = matches_count / len(skip_bigrams2)
+        
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
-- 
2.43.0


From bed73e5cc84e04337c41a447393c3f0d8c935830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 66/89] fix: ROUGE-SU only took tuples

---
 lib/daeso/string/rouge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 49c20b7..3417bb9 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -171,5 +171,5 @@ def rouge_su(tokens1, tokens2, distance_limit=sys.maxint,
     # "We can also obtain ROUGE-SU from ROUGE-S by adding a begin-of-sentence marker
     # at the beginning of candidate and reference sentences."
     # Note however that distance_limit may interfere with this trick!
-    return rouge_s((marker,) + tokens1, (marker,) + tokens2,
+    return rouge_s((marker,) + tuple(tokens1), (marker,) + tuple(tokens2),
                    distance_limit, beta)
-- 
2.43.0


From 79c9a2eccc33941379d28d16547314b2aca0a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 67/89] fix: normalized tf*idf of fewer than two documents

---
 lib/daeso/string/tf_idf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/tf_idf.py b/lib/daeso/string/tf_idf.py
index 40cd63d..8e435d3 100644
--- a/lib/daeso/string/tf_idf.py
+++ b/lib/daeso/string/tf_idf.py
@@ -84,7 +84,7 @@ TODO
     docs_count = float(len(terms_per_doc))
     weights_per_doc = []
     
-    if normalized:
+    if normalized and docs_count > 1:
         # note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count),
         # so we can normalize idf by simply dividing by logs(docs_count) 
@@ -151,7 +151,7 @@ def tf_idf(terms_per_doc, normalized=False, indicator=False):
     docs_count = float(len(terms_per_doc))
     weights_per_doc = []
     
-    if normalized:
+    if normalized and docs_count > 1:
         # Note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count).
         # so we can normalize idf by simply dividing by logs(docs_count) 
-- 
2.43.0


From 01eefb046f6e1cb4442fd602d4b48f45db7bbc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 68/89] fix: skip bigrams of long sequences exceeded the
 recursion limit

---
 lib/daeso/string/sgram.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/string/sgram.py b/lib/daeso/string/sgram.py
index 02de036..c47c832 100644
--- a/lib/daeso/string/sgram.py
+++ b/lib/daeso/string/sgram.py
@@ -36,12 +36,9 @@ def skip_bigram_slices(tokens, distance_limit=sys.maxint):
     """
     # distance_limit corresponds to d_skip in Lin04
     # distance_limit=0 gives ordinary bigrams
-    if tokens:
-        return ( [(tokens[0], next_token) 
-                  for next_token in tokens[1:2 + distance_limit]] +
-                 skip_bigram_slices(tokens[1:], distance_limit) )
-    else:
-        return []
+    return [ (token, next_token)
+             for i, token in enumerate(tokens)
+             for next_token in tokens[i + 1:i + 2 + distance_limit] ]
 
 
 def padded_skip_bigram_slices(tokens, distance_limit=sys.maxint,
-- 
2.43.0


From 79657bf8869848924c1ae35b4a99e9e570e22fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 69/89] fix: groups of three zeros were spelled out in Dutch
 numbers

---
 lib/daeso/string/number.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index 269dabd..10dbdb4 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -50,8 +50,9 @@ def spell_out_number(n, prefer_hundreds=True):
     while s:
         triple = s[-3:].rjust(3, "0")
         
-        if i == 0 and triple == "000":
-            words = "nul"
+        if triple == "000":
+            # zeros remain unexpressed
+            pass
         elif i == 1 and triple == "001":
             # 1000 ==> *eenduizend
             words = ( _triple_modifiers[i] + 
@@ -67,7 +68,7 @@ def spell_out_number(n, prefer_hundreds=True):
         i += 1
         
     # strip spaces from words starting/ending with a triple modifier
-    return words.strip()
+    return words.strip() or "nul"
 
 
 
-- 
2.43.0


From f70abd7cdf5842bc2a1c12dc8c3aaccf85c65a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 70/89] fix: number module printed numbers when imported

---
 lib/daeso/string/number.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index 10dbdb4..4cdd2a4 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -153,17 +153,3 @@ def _digit_triple_to_words(digits):
         words += _triple_to_word["0" + d2 + "0"]
         
     return words
-
-
-    
-             
-print spell_out_number(4401)
-print spell_out_number(6028)
-print spell_out_number(271850)
-
-    
-    
-    
-    
-    
-    
\ No newline at end of file
-- 
2.43.0


From 3bf8fe859eeff6bacdfdbca593852c04bf0473af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 71/89] fix: GenericCache: storing an existing key leaves no
 ghost in the LRU list, non-string keys are found, values are generated with
 default_fail

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index d991323..5c6fd1f 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -107,7 +107,7 @@ class GenericCache(dict):
         """
         Fetch key, calling generator to build if it doesn't exist
         """
-        res = self.fetch(key, onmissing = _marker)
+        res = self.fetch(key, fail = False, onmissing = _marker)
         if res is _marker:
             res = generator(*args, **kwargs)
             self[key] = res
@@ -149,7 +149,11 @@ class GenericCache(dict):
         else:
             node = key
 
-        if not key in self:
+        if node in self:
+            # take out the old entry completely, otherwise its node lingers
+            # in the list of least recently used objects
+            self.remove(node)
+        else:
             self._shrink(1)
         
         node.__cache_timestamp = time.time()
@@ -199,6 +203,6 @@ class GenericCache(dict):
         """
         Do we have such key ?
         """
-        return self.values.has_key(key)
+        return self.values.has_key(str(key))
     __contains__ = has_key
 
-- 
2.43.0


From e250c0d0656ead4e5346d0c222ab3e1db6ebc282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 72/89] fix: GenericCache: keys and membership are taken under
 the lock like all other operations

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index 5c6fd1f..115a244 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -193,12 +193,14 @@ class GenericCache(dict):
     __delitem__ = remove
     __len__ = size
 
+    @synchronized
     def keys(self):
         """
         Get stored keys
         """
         return [ key.key for key in self.values.keys() ]
 
+    @synchronized
     def has_key(self, key):
         """
         Do we have such key ?
-- 
2.43.0


From 1825deb3b6e8052e8ec75d797c0f806b68730a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 73/89] fix: OrderedDict: the views inherited from dict were
 not ordered

---
 lib/daeso/thirdparty/odict.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/odict.py b/lib/daeso/thirdparty/odict.py
index e656f18..007ec0b 100644
--- a/lib/daeso/thirdparty/odict.py
+++ b/lib/daeso/thirdparty/odict.py
@@ -9,7 +9,7 @@ I redefined the iterkeys, itervalues, and iteritems methods,
 because they were broken in Python 2.6.3
 """
 
-from collections import MutableMapping
+from collections import MutableMapping, KeysView, ValuesView, ItemsView
 
 class OrderedDict(dict, MutableMapping):
 
@@ -68,6 +68,17 @@ class OrderedDict(dict, MutableMapping):
     itervalues = MutableMapping.itervalues
     iteritems = MutableMapping.iteritems
 
+    # The views inherited from dict are not ordered
+
+    def viewkeys(self):
+        return KeysView(self)
+
+    def viewvalues(self):
+        return ValuesView(self)
+
+    def viewitems(self):
+        return ItemsView(self)
+
     def __repr__(self):
         pairs = ', '.join(map('%r: %r'.__mod__, self.items()))
         return '%s({%s})' % (self.__class__.__name__, pairs)
-- 
2.43.0


From 2a4d4e53ab349ef13c65a1c3487be2a5d08fbd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 74/89] fix: munkres: the smallest uncovered value may exceed
 sys.maxint

---
 lib/daeso/thirdparty/munkres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index a130aff..972eba2 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -592,11 +592,11 @@ class Munkres:
 
     def __find_smallest(self):
         """Find the smallest uncovered value in the matrix."""
-        minval = sys.maxint
+        minval = None
         for i in range(self.n):
             for j in range(self.n):
                 if (not self.row_covered[i]) and (not self.col_covered[j]):
-                    if minval > self.C[i][j]:
+                    if minval is None or minval > self.C[i][j]:
                         minval = self.C[i][j]
         return minval
 
-- 
2.43.0


From 9a8327887678449d57fe2b5c79861b78c9076b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 75/89] fix: munkres: print_matrix failed on zero and negative
 values

---
 lib/daeso/thirdparty/munkres.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index 972eba2..83c31f5 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -735,8 +735,6 @@ def print_matrix(matrix, msg=None):
         msg : str
             Optional message to print before displaying the matrix
     """
-    import math
-
     if msg is not None:
         print msg
 
@@ -744,7 +742,7 @@ def print_matrix(matrix, msg=None):
     width = 0
     for row in matrix:
         for val in row:
-            width = max(width, int(math.log10(val)) + 1)
+            width = max(width, len('%d' % val))
 
     # Make the format string
     format = '%%%dd' % width
-- 
2.43.0


From 6d047b27285b875fa33fd6c8f88a88f01204110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 76/89] fix: pgc_split: write as many parts as asked for

---
 bin/pgc_split.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bin/pgc_split.py b/bin/pgc_split.py
index fc5eaa9..5266b84 100755
--- a/bin/pgc_split.py
+++ b/bin/pgc_split.py
@@ -77,11 +77,15 @@ log("Reading corpus from " + args.filename)
 corpus = ParallelGraphCorpus(inf=args.filename)
 root, ext = os.path.splitext(args.filename)
 
-if not args.size:
-    args.size = int(round(len(corpus) / args.parts + 0.5))
-
-for i in range(0, len(corpus), args.size): 
-    j = min(i + args.size, len(corpus))
+if args.size:
+    bounds = range(0, len(corpus), args.size) + [len(corpus)]
+else:
+    # parts of (nearly) equal size, none of them empty
+    n_parts = min(args.parts, len(corpus))
+    bounds = [ k * len(corpus) // n_parts
+               for k in range(n_parts + 1) ] if n_parts else []
+
+for i, j in zip(bounds, bounds[1:]):
     part_corpus = corpus[i:j]
     part_filename = "{0}_{1:04d}-{2:04d}{3}".format(root, i + 1, j, ext)
     log("Writing corpus part " + part_filename)
-- 
2.43.0


From c3a57c05ac3804f1c4b75e9cf218145d1a2ddd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 77/89] fix: pgc_split: parts sort in order when a corpus has
 more than 9999 pairs

---
 bin/pgc_split.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_split.py b/bin/pgc_split.py
index 5266b84..b12b4af 100755
--- a/bin/pgc_split.py
+++ b/bin/pgc_split.py
@@ -85,9 +85,13 @@ else:
     bounds = [ k * len(corpus) // n_parts
                for k in range(n_parts + 1) ] if n_parts else []
 
+# positions of equal width, so the parts sort in order
+width = max(4, len(str(len(corpus))))
+
 for i, j in zip(bounds, bounds[1:]):
     part_corpus = corpus[i:j]
-    part_filename = "{0}_{1:04d}-{2:04d}{3}".format(root, i + 1, j, ext)
+    part_filename = "{0}_{1:0{4}d}-{2:0{4}d}{3}".format(root, i + 1, j, ext,
+                                                        width)
     log("Writing corpus part " + part_filename)
     part_corpus.write(outf=part_filename, pprint=args.format)
     
-- 
2.43.0


From 82a8550595cf1429f7a146238fe899d8d638dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 78/89] fix: pgc_chdir: leave file elements in user-defined
 meta-data alone

---
 bin/pgc_chdir.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_chdir.py b/bin/pgc_chdir.py
index 7f509bb..bbd076e 100755
--- a/bin/pgc_chdir.py
+++ b/bin/pgc_chdir.py
@@ -85,7 +85,9 @@ for fn in args.corpus:
     # because of all the overhead of reading the treebanks etc.
     tree = ElementTree(file=fn)
         
-    for file_el in tree.findall("//file"):
+    # only the <file> elements that refer to graphbanks, because user-defined
+    # meta-data may use any tag
+    for file_el in tree.findall("graphbanks/file"):
         from_path, to_path = args.path_prefix_pair
         
         if file_el.text.startswith(from_path):
-- 
2.43.0


From 3016a9afeab9b7f8966f9c0320d2905216f033db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 79/89] fix: pgc_zip: each file once, and no two files under
 the same name

---
 bin/pgc_zip.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index aed0d4e..2c2090f 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -48,24 +48,35 @@ from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
 
 
 def pgc_zip(zip_filename, pgc_filenames):
-    zip_arch = zipfile.ZipFile(zip_filename, "w")
     arch_dir = os.path.splitext( os.path.basename(zip_filename))[0]
+    # maps filenames in the archive to the files to be added
+    members = {}
+    
+    def add(filename):
+        arch_filename = os.path.join( arch_dir,
+                                      os.path.basename(filename) )
+        other = members.setdefault(arch_filename, filename)
+        
+        if not os.path.samefile(other, filename):
+            # all files end up in a single directory
+            exit("Error: {0} and {1} cannot be in the same archive, because "
+                 "they have the same name".format(other, filename))
     
     for corpus_filename in multiglob(pgc_filenames):
         # add corpus to archive
-        arch_filename = os.path.join( arch_dir,
-                                      os.path.basename(corpus_filename) )
-        zip_arch.write(corpus_filename, arch_filename)
+        add(corpus_filename)
         
         corpus = ParallelGraphCorpus(inf=corpus_filename,
                                      graph_loading=LOAD_NONE)
 
         for gb in corpus._graphbanks():
-            gb_filename = gb.get_file_path()
             # add graphbank files to archive
-            arch_filename = os.path.join( arch_dir,
-                                          os.path.basename(gb_filename) )
-            zip_arch.write(gb_filename, arch_filename)
+            add(gb.get_file_path())
+            
+    zip_arch = zipfile.ZipFile(zip_filename, "w")
+    
+    for arch_filename, filename in sorted(members.items()):
+        zip_arch.write(filename, arch_filename)
             
     zip_arch.close()
     
-- 
2.43.0


From 6e045f56179ae5f0134d0a41497c705b20d47ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 80/89] fix: multiglob: the name of an existing file stands for
 itself

---
 lib/daeso/utils/opsys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 0e70905..137beca 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -53,9 +53,12 @@ def glob(pattern):
 def multiglob(patterns):
     """
     glob for multiple patterns and return a sorted list of filenames
+    
+    The name of an existing file stands for itself, also when it contains
+    characters which are special in a pattern.
     """
     filenames =  [ fn 
                    for pat in patterns 
-                   for fn in _glob.glob(pat) ]
+                   for fn in ([pat] if os.path.exists(pat) else _glob.glob(pat)) ]
     filenames.sort()
     return filenames
-- 
2.43.0


From a86de07e3ef68a56919c6dedb6b37a90d6ba909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 81/89] fix: corpora and graphbanks in non-ASCII directories:
 file paths are unicode

---
 bin/pgc_chdir.py          |  4 +++-
 lib/daeso/gb/graphbank.py |  3 ++-
 lib/daeso/pgc/corpus.py   |  7 +++++--
 lib/daeso/utils/opsys.py  | 17 +++++++++++++++++
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/bin/pgc_chdir.py b/bin/pgc_chdir.py
index bbd076e..4c64c7a 100755
--- a/bin/pgc_chdir.py
+++ b/bin/pgc_chdir.py
@@ -35,6 +35,7 @@ from xml.etree.cElementTree import ElementTree, tostring
 
 from daeso.utils.cli import DaesoArgParser
 from daeso.utils.etree import write
+from daeso.utils.opsys import unicode_path
 
 
 # TODO:
@@ -88,7 +89,8 @@ for fn in args.corpus:
     # only the <file> elements that refer to graphbanks, because user-defined
     # meta-data may use any tag
     for file_el in tree.findall("graphbanks/file"):
-        from_path, to_path = args.path_prefix_pair
+        from_path, to_path = [ unicode_path(path) 
+                               for path in args.path_prefix_pair ]
         
         if file_el.text.startswith(from_path):
             if args.verbose or args.test:
diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index c765a7a..03544eb 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -27,6 +27,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 import os
 import weakref
 
+from daeso.utils.opsys import unicode_path
 from daeso.gb.graphstub import GraphStub
 
 import daeso.gb.register 
@@ -141,7 +142,7 @@ class GraphBank(object):
         #if not os.path.isabs(file_path):
         #    raise ValueError("file_path must be an absolute path")
         
-        self._file_path = os.path.realpath(file_path)
+        self._file_path = unicode_path(os.path.realpath(unicode_path(file_path)))
         
         
     def get_graph(self, graph_id):
diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index a352ec6..9c947d4 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -44,6 +44,7 @@ from daeso.gb.graphbank import GraphBank, SparseGraphBank
 from daeso.exception import DaesoWarning, DaesoError
 from daeso.pair import Pair
 from daeso.utils.etree import write, equals
+from daeso.utils.opsys import unicode_path
 
 
 # global flags for graph loading
@@ -799,6 +800,8 @@ class PGCParser(object):
             # relative to the current directory, as in PGCGenerator
             self.dir = ""
             
+        self.dir = unicode_path(self.dir)
+            
         if pg_corpus is not None:
             assert isinstance(pg_corpus, ParallelGraphCorpus)
             self.pg_corpus = pg_corpus
@@ -848,7 +851,7 @@ class PGCParser(object):
                 gb.load()
             except IOError, inst:
                 msg = 'Cannot load graphbank from "{0}" ({1})'.format(
-                    inst.filename,
+                    gb.get_file_path().encode("utf-8"),
                     inst.strerror)
                 raise DaesoError(msg)
                 
@@ -1230,7 +1233,7 @@ class PGCGenerator(object):
                 # Create filename relative to corpus dir.
                 # Use realpath to eliminate symlinks in out_dir, 
                 # because otherwise relpath may become confused 
-                out_dir = os.path.realpath(out_dir)
+                out_dir = unicode_path(os.path.realpath(unicode_path(out_dir)))
                 file_elem.text = os.path.relpath(gb._file_path, out_dir)
                 
         
diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 137beca..3362381 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -26,8 +26,10 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 
 import os
+import sys
 import glob as _glob
 
+
 def makedirs(path, mode=0777):
     """
     a version of os.makedirs which raises no exception when the dir already
@@ -62,3 +64,18 @@ def multiglob(patterns):
                    for fn in ([pat] if os.path.exists(pat) else _glob.glob(pat)) ]
     filenames.sort()
     return filenames
+
+
+def unicode_path(path):
+    """
+    file path as a unicode string, which unlike a byte string can be combined
+    with the file paths in XML documents
+    """
+    if isinstance(path, str):
+        try:
+            return path.decode(sys.getfilesystemencoding() or "utf-8")
+        except UnicodeDecodeError:
+            # not a proper file name on this system
+            pass
+        
+    return path
-- 
2.43.0


From df6d033b321e480a0d6595c547fbf76dab9c11e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 82/89] fix: parallel text documents and their texts in
 non-ASCII directories

---
 bin/ptc_chdir.py          | 3 ++-
 lib/daeso/ptc/document.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bin/ptc_chdir.py b/bin/ptc_chdir.py
index 1ef12ae..1cadec0 100755
--- a/bin/ptc_chdir.py
+++ b/bin/ptc_chdir.py
@@ -33,6 +33,7 @@ from string import uppercase
 
 from daeso.utils.cli import ArgumentParser
 from daeso.ptc.document import HitaextDoc
+from daeso.utils.opsys import unicode_path
 
 
 parser = ArgumentParser(description=__doc__)
@@ -86,7 +87,7 @@ for fn in args.corpus:
             path = path[2:]
         path = path.replace("\\", "/")
         
-        path = join(args.dir, basename(path))
+        path = join(unicode_path(args.dir), basename(path))
         
         if args.verbose or args.test:
             print >>stderr, "Changing %s path to %s" %  (side, path)
diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 928249d..033466c 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -29,6 +29,7 @@ from xml.etree.cElementTree import Element, ElementTree, XML
 
 from daeso.ptc.ielemtree import IndexElemTree
 from daeso.pair import Pair
+from daeso.utils.opsys import unicode_path
 
 from os.path import basename, dirname, exists, join
     
@@ -90,12 +91,14 @@ class HitaextDoc(ElementTree):
         
         # this still won't work with a windows path
         if search:
+            doc_dir = dirname(unicode_path(self.filename))
+            
             for p in (
                 fn,
                 # relative path
-                join(dirname(self.filename), fn),
+                join(doc_dir, fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(fn)) 
+                join(doc_dir, basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From d355e4549c9386161b64880a743f55813fcde646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 83/89] fix: pgc_extract_phrases: non-ASCII delimiter

---
 bin/pgc_extract_phrases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/pgc_extract_phrases.py b/bin/pgc_extract_phrases.py
index 08d522c..dc8341c 100755
--- a/bin/pgc_extract_phrases.py
+++ b/bin/pgc_extract_phrases.py
@@ -41,6 +41,9 @@ from daeso.pgc.corpus import ParallelGraphCorpus
 def extract_phrases(file, delimiter="\t", verbose=False):
     corpus = ParallelGraphCorpus(inf=file)
     
+    if isinstance(delimiter, str):
+        delimiter = delimiter.decode("utf-8")
+    
     for graph_pair in corpus:
         graphs = graph_pair.get_graphs()
         
-- 
2.43.0


From 5b6b9ad6cee8c1b39cf835e16e1a4d8b508dce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:10 +0000
Subject: [PATCH 84/89] fix: reports of differences failed on non-ASCII
 relations and element ids

---
 lib/daeso/pgc/diff.py | 10 +++++++---
 lib/daeso/ptc/diff.py |  8 ++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index d67804e..c8a4203 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -146,8 +146,9 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
         
         for nodes in nodes_list:        
             align_count += 1
-            rel1 = str(graph_pair1.get_align(nodes))
-            rel2 = str(graph_pair2.get_align(nodes))
+            # not str(), because relations may contain non-ASCII characters
+            rel1 = "%s" % graph_pair1.get_align(nodes)
+            rel2 = "%s" % graph_pair2.get_align(nodes)
             
             # tricky because of implicit coercions, 
             # see "Formatting Markers" http://www.python.org/dev/peps/pep-0100/
@@ -159,7 +160,10 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
                 graphs.source.node[nodes.source]["end"],
                 graphs.source.get_node_token_string(nodes.source))
             print >>out, s.encode("utf-8")
-            print >>out, "<<<", rel1.upper(), "/", rel2.upper(), ">>>"
+            s = "<<< %s / %s >>>" % (rel1.upper(), rel2.upper())
+            if isinstance(s, unicode):
+                s = s.encode("utf-8")
+            print >>out, s
             s = '(%s) %s [%s:%s]: "%s"\n' % (
                 nodes.target,
                 graphs.target.node[nodes.target]["label"],
diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index e796f96..8a65cfa 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -61,10 +61,10 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                     break
             else:
                 count += 1
-                print "#%d true only (%s, %s):" % (
+                print ( u"#%d true only (%s, %s):" % (
                     count,
                     true_from_elem.get("id"),
-                    true_to_elem.get("id"))
+                    true_to_elem.get("id")) ).encode(encoding)
                 print true_from_tree.get_elem_text(true_from_elem).encode(encoding)
                 print true_to_tree.get_elem_text(true_to_elem).encode(encoding)
                 print
@@ -77,10 +77,10 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                     break
             else:
                 count += 1
-                print "#%d predicted only (%s, %s)" % (
+                print ( u"#%d predicted only (%s, %s)" % (
                     count,
                     pred_from_elem.get("id"),
-                    pred_to_elem.get("id"))
+                    pred_to_elem.get("id")) ).encode(encoding)
                 print pred_from_tree.get_elem_text(pred_from_elem).encode(encoding)
                 print pred_to_tree.get_elem_text(pred_to_elem).encode(encoding)
                 print
-- 
2.43.0


From 62a5c9ff1490eb675e5f9ec1e446433e495ee5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:18 +0000
Subject: [PATCH 85/89] fix: meta-data may contain elements named like
 meta-data

---
 lib/daeso/pgc/corpus.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 9c947d4..55682e8 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -755,7 +755,7 @@ class PGCParser(object):
     """
     
     def __init__(self):
-        self.in_meta_data=False
+        self.in_meta_data = None
         self.graph_pair = None
         self.default_format = None
         self.relations = []
@@ -814,8 +814,8 @@ class PGCParser(object):
         # use ElementTree's iterparse rather than expat, because we want to
         # store the meta-data as an Element
         for event, elem in et.iterparse(inf, ("start", "end")):
-            if ( self.in_meta_data and
-                 elem.tag not in ("corpus_meta_data", "graph_meta_data") ):
+            if ( self.in_meta_data is not None and
+                 self.in_meta_data is not elem ):
                 # user-defined meta-data may use any tag
                 continue
             
@@ -824,7 +824,7 @@ class PGCParser(object):
                     # search handler only
                     handler = self.start_handlers[elem.tag]
                 except KeyError:
-                    if not self.in_meta_data:
+                    if self.in_meta_data is None:
                         warnings.warn(
                             "Encountered illegal element <{0}>".format(elem.tag),
                             DaesoWarning)
@@ -864,7 +864,7 @@ class PGCParser(object):
     #-------------------------------------------------------------------------------
 
     def handle_meta_data_elem_start(self, elem):
-        self.in_meta_data = True
+        self.in_meta_data = elem
 
         
     def handle_graphbanks_elem_start(self, elem):
@@ -959,7 +959,7 @@ class PGCParser(object):
                         
     def handle_corpus_meta_data_elem_end(self, elem):
         self.pg_corpus.set_meta_data(elem)
-        self.in_meta_data = False
+        self.in_meta_data = None
         
         
     def handle_file_elem_end(self, elem):
@@ -1007,7 +1007,7 @@ class PGCParser(object):
         
     def handle_graph_meta_data_elem_end(self, elem):
         self.graph_pair._meta_data = elem
-        self.in_meta_data = False
+        self.in_meta_data = None
         
         
     def handle_graphbanks_elem_end(self, elem):
-- 
2.43.0


From bbd0cd9a213138fd0286fe8b2293b7ffb211074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:20 +0000
Subject: [PATCH 86/89] fix: an option joined with its value by = may be the
 beginning of another option's name

---
 lib/daeso/thirdparty/argparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 29963a2..99f2222 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -2044,6 +2044,10 @@ class ArgumentParser(_AttributeHolder, _ActionsContainer):
         if option_string[0] in chars and option_string[1] in chars:
             if '=' in option_string:
                 option_prefix, explicit_arg = option_string.split('=', 1)
+                # a complete option string is never an abbreviation of others
+                if option_prefix in self._option_string_actions:
+                    action = self._option_string_actions[option_prefix]
+                    return [(action, option_prefix, explicit_arg)]
             else:
                 option_prefix = option_string
                 explicit_arg = None
-- 
2.43.0


From ab9618a8432ad6e029168f8db390aa38af1889a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:19 +0000
Subject: [PATCH 87/89] fix: command-line values like --5 or -5x were taken for
 negative numbers

---
 lib/daeso/thirdparty/argparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/argparse.py b/lib/daeso/thirdparty/argparse.py
index 99f2222..387c31f 100644
--- a/lib/daeso/thirdparty/argparse.py
+++ b/lib/daeso/thirdparty/argparse.py
@@ -1203,7 +1203,7 @@ class _ActionsContainer(object):
         self._defaults = {}
 
         # determines whether an "option" looks like a negative number
-        self._negative_number_matcher = _re.compile(r'^-\d+|-\d*.\d+$')
+        self._negative_number_matcher = _re.compile(r'^-\d+$|^-\d*\.\d+$')
 
         # whether or not there are any optionals that look like negative
         # numbers -- uses a list so it can be shared and edited
-- 
2.43.0


From b5d0ad337b72fa20594672facde74daf417a6407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 88/89] fix: makedirs hid every error, not only that the
 directory exists

---
 lib/daeso/utils/opsys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 3362381..2edc577 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -38,9 +38,9 @@ def makedirs(path, mode=0777):
     try:
         os.makedirs(path, mode)
     except OSError, inst:
-        if inst.errno == 17:
-            # dir already exists
-            pass
+        # it is no problem if the dir already exists
+        if inst.errno != 17 or not os.path.isdir(path):
+            raise
         
         
 def glob(pattern):
-- 
2.43.0


From 41ecc81a397daac30e7912f313ddfe97f645a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:14 +0000
Subject: [PATCH 89/89] fix: no annotator could be set on a corpus without
 meta-data

---
 lib/daeso/pgc/corpus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 55682e8..e457002 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -661,6 +661,9 @@ class ParallelGraphCorpus(list):
             pass
         
     def set_annotator(self, annot, append=True):
+        if self._meta_data is None:
+            self._meta_data = et.Element("corpus_meta_data")
+            
         annot_el = self._meta_data.find("annotator")
         
         if annot_el is None:
-- 
2.43.0

