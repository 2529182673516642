#!/usr/bin/python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Graph matchings stay one-to-one under every editing history",
  "In a matching graph pair every source node is aligned to at most one target node and every target node to at most one source node, whatever sequence of alignments is added and deleted and whatever the node names are (equal names on both sides included). Adding an alignment undoes any earlier alignment of its two end nodes and touches no other alignment; deleting one removes exactly that one. All queries - the relation of a node pair, the partner of a source or target node, the (relation-filtered) list of alignments, their number, whether the two roots are aligned - answer from exactly the current alignments.",
  "histories", "all sequences of add/delete/query over any node names and relations",
  "Tests add a handful of alignments in one order on one pair; the guarantee is about every order, including re-alignment chains and nodes that carry the same id on both sides.",
  "lib/daeso/pgc/graphpair.py lib/daeso/pair.py",
  [("GraphMatching.add_align frees both end nodes", "lib/daeso/pgc/graphpair.py"), ("del_align and its house keeping", "lib/daeso/pgc/graphpair.py")],
  [("alignment edges", "source node -> (target node, relation)", "GraphMatching as DiGraph")],
  ["get_align", "alignments", "len", "get_aligned_source_node", "get_aligned_target_node", "roots_aligned"])

p("C02", "Many-to-many mappings keep exactly the alignments added",
  "A mapping graph pair holds, after any sequence of additions and deletions, exactly the node pairs added and not deleted since, each with the relation given last; adding or deleting one node pair never changes another, even when nodes are shared or source and target node names coincide. Its queries, relation filter and length agree with that set, and deleting an alignment that does not exist is an error that leaves the alignments as they were.",
  "histories", "all sequences of add/delete/query over any node names and relations",
  "The tests exercise mappings with a few fixed edges; house keeping after deletion depends on the history and on name clashes.",
  "lib/daeso/pgc/graphpair.py",
  [("GraphMapping.add_align/del_align", "lib/daeso/pgc/graphpair.py")],
  [("alignment edges", "set of (source, target, relation)", "GraphMapping as DiGraph")], ["get_align", "alignments", "len"])

p("C03", "Graph pair copies are independent; equality means same content",
  "A deep copy of a graph pair equals the original, shares its graphbanks and graphs, and from then on its alignments and meta-data evolve independently of the original's. Two graph pairs of the same kind are equal exactly when their graphbanks are the same files, their graphs have the same ids, their alignments (with relations, order irrelevant) are the same and their meta-data are the same; inequality is always the negation of equality.",
  "histories inputs", "all pairs of graph pairs reachable by copying and editing alignments and meta-data",
  "Tests compare a few loaded pairs; independence must hold for every later edit of either side.",
  "lib/daeso/pgc/graphpair.py lib/daeso/pair.py lib/daeso/utils/etree.py lib/daeso/gb/graphbank.py",
  [("__deepcopy__", "lib/daeso/pgc/graphpair.py"), ("__eq__", "lib/daeso/pgc/graphpair.py")], (), ["==", "!=", "copy.deepcopy"])

p("C04", "A corpus behaves as a list of compatible graph pairs",
  "Under any history of append, insert, extend, pop, remove, reverse, item and (extended) slice assignment and deletion, +, +=, *, *= and slicing, a parallel graph corpus holds exactly the graph pairs a list would hold, in the same order, and returns what the list operation returns. Corpora made by slicing, adding or repeating are corpora with the relations and meta-data of their (left) operand. Combining by +, += or slice assignment with anything that is not a corpus, or with a corpus having other relations, is refused with an error and leaves the corpus as it was; so is storing anything but a graph pair by append, insert or item assignment.",
  "histories", "all operation sequences with any indices, slices and steps",
  "Tests call each operation once on one corpus; several operations of the API were never called by a test.",
  "lib/daeso/pgc/corpus.py",
  [("list operator overloads and _check_compatibility", "lib/daeso/pgc/corpus.py")],
  [("graph pairs", "the list itself", "ParallelGraphCorpus")], ["list operations", "get_relations", "get_meta_data"])

p("C05", "Corpus equality and deep copies reflect corpus content",
  "Two corpora are equal exactly when they have the same alignment relations, the same meta-data and equal graph pairs in the same order, and inequality is always the negation of equality. A deep copy of a corpus equals the original, and later changes to the graph pairs, alignments or meta-data of either never show in the other. Naming an annotator puts the name in the corpus' meta-data after the annotators already named (or in their place, if asked) and changes nothing else, also when the corpus had no meta-data.",
  "histories inputs", "all pairs of corpora reachable by copying and editing",
  "Tests compare one corpus with itself, its copy and a few variants.",
  "lib/daeso/pgc/corpus.py lib/daeso/pgc/graphpair.py",
  [("__eq__, __ne__, __deepcopy__", "lib/daeso/pgc/corpus.py")], (), ["==", "!=", "copy.deepcopy"])

p("C06", "Writing a corpus and reading it back loses nothing",
  "Reading back a written corpus gives the same graph pairs in the same order: the same graphbank files and graph ids, the same alignments with their relations, the same relation list, and the same corpus meta-data (annotators included) and graph-pair meta-data - for absolute and for relative graphbank paths, for indented and plain output, for output by file name or by open file, and from every working directory. With relative graphbank paths this also holds after the directory tree containing the corpus and its graphbanks has been moved. Writing leaves the corpus in memory equal to what it was.",
  "inputs histories configurations", "all corpora, meta-data, path layouts, writing options and write/read/move sequences",
  "Tests round-trip one corpus in a few modes; they never move directories, vary meta-data or combine options.",
  "lib/daeso/pgc/corpus.py lib/daeso/utils/etree.py lib/daeso/gb/graphbank.py",
  [("PGCGenerator.generate", "lib/daeso/pgc/corpus.py"), ("PGCParser.parse", "lib/daeso/pgc/corpus.py"), ("etree.write/indent", "lib/daeso/utils/etree.py")],
  [("disk", "path -> corpus document / graphbank", "file system")], ["write", "read", "files on disk"])

p("C07", "All graph loading modes give the same corpus",
  "Loading all graphs, only the aligned graphs, or no graphs yields corpora that are equal to each other; with graphs loaded every pair refers to the real graph with the id and graphbank that the corpus file names, in whatever way pairs share graphbanks and graphs, and without loading the pairs only know graph ids. Loading a corpus in which a pair lacks a graph or graphbank id or names an undefined graphbank, or (with graphs loaded) a graph or graphbank file that does not exist, fails with the framework's own error. Elements unknown to the format are warned of, each once, and otherwise ignored. With relaxed paths, a graphbank missing from its named location is taken from the corpus' directory, and only then.",
  "inputs configurations fault_sequences", "all corpora, sharing patterns of banks and graphs, loading modes and missing pieces",
  "Tests load two corpora; sharing patterns (same bank on both sides, same graph in many pairs) and missing pieces are barely sampled.",
  "lib/daeso/pgc/corpus.py lib/daeso/gb/graphbank.py lib/daeso/gb/graphstub.py lib/daeso/gb/parser.py",
  [("PGCParser loading modes", "lib/daeso/pgc/corpus.py"), ("GraphStub.replace_stub", "lib/daeso/gb/graphstub.py"), ("SparseGraphBank.load", "lib/daeso/gb/graphbank.py")],
  [("stubs and clients", "graph id -> pairs awaiting the graph", "SparseGraphBank, GraphStub")], ["read", "get_graphs", "get_banks"])

p("C08", "One graphbank per file: purge and write consolidate correctly",
  "After purging, all graph pairs whose graphbanks are the same file (however the path is spelled, symbolic links included) share a single graphbank, every pair still refers to its own graphbank file and graphs, and nothing else about the corpus changed. A written corpus lists each graphbank file exactly once, with unique ids, only those in use by some pair, and each pair refers to the entries of its own source and target graphbanks.",
  "inputs histories", "all corpora built by reading, adding and combining corpora over shared and distinct graphbanks",
  "Tests purge one corpus; which banks coincide depends on the editing history and on the file system.",
  "lib/daeso/pgc/corpus.py lib/daeso/gb/graphbank.py",
  [("purge", "lib/daeso/pgc/corpus.py"), ("_gen_aligned_graphs", "lib/daeso/pgc/corpus.py"), ("GraphBank.__eq__", "lib/daeso/gb/graphbank.py")], (), ["purge", "get_graphbanks", "get_graphs", "write"])

p("C09", "GraphML graphbanks are parsed faithfully",
  "Parsing a GraphML graphbank yields exactly its graphs, each with its id, tokens, root, nodes in document order, edges, and attributes: every value given by the document on graph, node or edge, and the key's default where a value is omitted, attached to the component it belongs to, wherever it stands in the document as long as edges follow their nodes. Parsing only some requested graphs gives these same graphs and no others, and fails with the framework's own error when a requested graph is absent. Undefined keys, graphs without tokens and nodes without label or tokens are rejected with that error too.",
  "inputs", "all well-formed GraphML graphbanks and requested subsets",
  "Tests parse one generated graphbank; defaults, data order, escaping and sparse subsets are not varied.",
  "lib/daeso/gb/graphml.py lib/daeso/gb/parser.py lib/daeso/gb/graphbank.py",
  [("expat event automaton", "lib/daeso/gb/graphml.py")], [("context stack, key table, current graph/node", "parser state", "GraphmlParser")], ["GraphBank.load", "parse_string"])

p("C10", "Ordered graphs remember insertion order and behave as digraphs",
  "An ordered directed graph contains, after any history of node and edge additions and removals, exactly the nodes and edges a directed graph would contain with the same attributes, and its nodes, edges and successors are listed in the order in which they were inserted. In syntactic graphs, edges cannot be added between nodes that do not exist. Copies, subgraphs and reversals of an ordered graph have the same nodes, edges and order (those of the subgraph, or reversed, respectively), and later additions and removals in them never affect the original, nor do later changes of attributes of copies.",
  "histories", "all sequences of graph mutations over any node names and attributes",
  "Tests build one graph; re-insertion after removal, shared attribute dictionaries and copying after edits are not explored.",
  "lib/daeso/graph/ograph.py lib/daeso/graph/daesograph.py",
  [("ODiGraph over OrderedDict", "lib/daeso/graph/ograph.py")], [("adjacency and node dictionaries", "ordered", "ODiGraph")], ["nodes", "edges", "add_*", "remove_*"])

p("C11", "Syntactic graph queries reflect the tree",
  "For every syntactic graph, the terminal yield of a node is the left-to-right sequence of terminals below it, with punctuation and empty nodes left out exactly when asked; the terminals, non-terminals, node counts, token strings and node classifications follow from the graph's nodes and edges alone, for every node id including falsy ones. A token string set on a node is returned unchanged and split into tokens at its blanks; one set on a graph is split at white space, which is normalised.",
  "inputs", "all ordered trees (and dags), node kinds and node ids",
  "Tests query a few nodes of two parse trees.",
  "lib/daeso/graph/daesograph.py lib/daeso/graph/ograph.py",
  [("terminal_yield, is_terminal, node_is_punct, node_is_empty", "lib/daeso/graph/daesograph.py")], (), ["DaesoGraph queries"])

p("C12", "Alignment evaluation scores are exactly those of the alignments",
  "Evaluating predicted against true corpora counts, for each pair of corpora added and for each relation, the alignments that the truth has, that the prediction has, and that both have with that relation; irrespective of relation it counts node pairs aligned in both. Precision, recall and F-score follow from these counts alone and are zero where undefined. Sums and micro averages are those of the summed counts, macro averages and (sample) deviations are those of the per-corpus scores, overall figures combine the relations likewise, and all are independent of the order of graph pairs and alignments, of when or how often the evaluation is run, and leave the corpora unchanged. The written report states exactly these figures.",
  "inputs", "all pairs of alignment sets over any relations and graphs, and all sequences of adding, evaluating and reporting",
  "Tests evaluate two corpora once and compare a handful of numbers.",
  "lib/daeso/pgc/evaluate.py",
  [("AlignEval", "lib/daeso/pgc/evaluate.py")], [("true/pred/common counts", "per pair and relation", "AlignEval")], ["AlignEval results and reports"])

p("C13", "Annotator agreement is symmetric, complete and consistent",
  "Agreement over annotations of the same graph pairs compares every annotator against every other one; every cell is the evaluation of the one's alignments against the other's, so swapping the roles swaps precision and recall and keeps F-score and common counts, and the averages and (sample) deviations per annotator and overall are those of the cells off the diagonal. Restricting agreement to words leaves out exactly the alignments that involve a non-terminal. The printed tables and pickled results state these figures.",
  "inputs", "all sets of annotations of the same corpus, any number of annotators",
  "The tests run one agreement computation without checking the figures.",
  "lib/daeso/pgc/agreement.py lib/daeso/pgc/evaluate.py",
  [("agreement tables", "lib/daeso/pgc/agreement.py")], (), ["agreement functions"])

p("C14", "Corpus and graphbank statistics add up",
  "Corpus statistics count exactly the graph pairs (fully aligned, with failed parses, with unaligned roots) and the alignments per relation that are included under the chosen options; graphbank statistics count exactly the included graphs, their tokens and nodes, split into aligned and unaligned nodes and into unaligned, single and multiply aligned graphs according to the corpus' included pairs. What is excluded is counted nowhere, totals are sums of the per-file counts, parts add up to their wholes, and percentages and averages are those of the counts, per file and overall, in memory and in the printed tables.",
  "inputs configurations", "all corpora and statistics options",
  "The tests compute statistics of one corpus and check nothing about the relation between figures.",
  "lib/daeso/pgc/pgcstats.py lib/daeso/gb/gbstats.py lib/daeso/stats/table.py",
  [("graph_pair_stats, graph_stats", "lib/daeso/pgc/pgcstats.py")], (), ["statistics tables"])

p("C15", "Statistics tables keep, summarize and restore their cells",
  "A statistics table returns exactly the values stored in its cells, with a default per kind of column for cells never set, however it is grown; summarizing gives each count column its total and each percentage or average column of a corpus or graph bank table the ratio of the totals it relates to, leaving it open where the total is zero. A table written to file shows its columns, rows, overall figures and (when asked for) legenda, and reading it appends exactly its rows, whatever names and figures they hold. The tables reported over a corpus segment are the concatenation of their parts in order with overall figures recomputed, every corpus file counted in its own part; parts that are not targeted keep their previous table, and the current directory is kept.",
  "histories inputs", "all sequences of table operations and all cell values",
  "The tests fill and write one table.",
  "lib/daeso/stats/table.py lib/daeso/stats/corpus.py",
  [("StatsTable/StatsColumn", "lib/daeso/stats/table.py")], [("columns", "name -> cells", "StatsTable")], ["table cells", "files"])

p("C16", "Corpus comparison partitions the alignments",
  "Comparing two corpora of the same graph pairs reports, per graph pair, each alignment exactly once: as identical (same nodes and relation in both, when these are asked for), as differing in relation, as only in the first, or only in the second, with the relations of both and the id, label, span and text of both nodes, in order of the source node and numbered through the report. Hence, but for identical alignments, the report is empty exactly when the alignments are the same, and swapping the corpora swaps the roles. Limiting the comparison to some relations keeps the alignments having one of these in either corpus (by default the relations of the first corpus); limiting it to words leaves out exactly the alignments of a non-terminal on either side. The whole report goes to the given output, and the corpora are left alone. (Node ids are numbers and nodes have begin and end attributes, as the reports require.) On request the script adds the evaluation of the second corpus against the first.",
  "inputs", "all pairs of alignment sets on the same graphs and all report options",
  "No test checks the contents of a report.",
  "lib/daeso/pgc/diff.py bin/pgc_diff.py",
  [("pgc_diff", "lib/daeso/pgc/diff.py")], (), ["diff report"])

p("C17", "Index element trees cover the text consistently",
  "In an indexed document tree every element is assigned the span of its own text within the text of the document, in document order: spans of nested elements are nested, those of disjoint elements disjoint, and the text at an element's span is its stripped text with the text and tails of everything inside it and the line breaks configured for these. Ignored elements and everything below them have no span and no text and are marked as ignored, and nothing else is, again after every update with another configuration. Elements are numbered per tag in document order and found by tag and number and by tag and id; an update clears all alignments of elements.",
  "inputs histories", "all document trees, tag configurations and repeated updates",
  "Tests update one or two fixed documents.",
  "lib/daeso/ptc/ielemtree.py",
  [("update", "lib/daeso/ptc/ielemtree.py")], [("start/end/ignore per element", "spans", "IndexElemTree")], ["element positions"])

p("C18", "Parallel text documents keep alignments, ids and files consistent",
  "A parallel text document holds exactly the links, method of alignment, display settings and names of texts given to it, and writing and reading, by name or to an open file, keeps them all. Injecting its links into its texts makes both elements of every link refer to each other, whether elements are referred to by position or by id; extracting gives one link per alignment in document order; and converting to ids keeps the alignments. The document finds a text as named, else relative to itself, else beside itself. The scripts convert to ids every document given, and change the directory of the texts of exactly the documents given (and of none in a dry run).",
  "inputs histories", "all documents, alignments, id assignments and write/read/convert sequences",
  "Tests read and write one document.",
  "lib/daeso/ptc/document.py lib/daeso/ptc/ielemtree.py",
  [("HitaextDoc", "lib/daeso/ptc/document.py")], (), ["HitaextDoc", "files"])

p("C19", "Text alignment scoring and comparison match the alignment sets",
  "Evaluating two alignments of the same parallel texts reports, for the pairs whose elements both have a given tag, exactly the number of pairs in either and in both, with ratio, precision, recall and F-score following from these, per document and over all documents. Comparing them lists exactly the pairs of an element with that tag in the source text that are in the first only and in the second only, with ids and texts, numbered. The outcome does not depend on the order of links nor on whether either document refers to elements by position or by id, and the documents are left alone.",
  "inputs", "all pairs of alignments over the same documents",
  "Tests evaluate one document against one other.",
  "lib/daeso/ptc/evaluate.py lib/daeso/ptc/diff.py",
  [("eval and diff", "lib/daeso/ptc/evaluate.py")], (), ["results", "reports"])

p("C20", "Automatic text alignment respects its configuration",
  "Within each pair of linked scope elements (by default the two roots) the text aligner considers exactly the pairs of source and target elements with the requested tags that lie inside them and outside ignored elements, scores each pair by the chosen terms and similarity of their texts, and links the pairs its filter selects: all of them, those scoring above the threshold, or - without crossing - greedily the best pairs at or above the threshold that do not cross a pair chosen before. Earlier links that involve a requested tag are removed when asked and not otherwise; every other link is kept and no link is duplicated, also when the same document trees are aligned again and again.",
  "inputs configurations", "all documents, scopes, thresholds and similarity functions",
  "The aligner has no runnable test here.",
  "lib/daeso/ptc/textalign.py",
  [("TextAligner", "lib/daeso/ptc/textalign.py")], (), ["alignments made"])

p("C21", "Edit distance, longest common subsequence and medians are exact",
  "The edit distance of two sequences is the least number of insertions, deletions and substitutions turning one into the other, in either direction; its normalized form divides by the longer length (zero for two empty sequences). The longest common subsequence is a subsequence of both sequences, no longer one exists, and it has the type of the inputs; its normalized length divides by the root of the product of the lengths. The set median of a collection is a member that minimises the summed distance to all members. All of this holds for strings, unicode strings, lists and tuples alike, empty ones included, and leaves the arguments as they were.",
  "inputs", "all sequences of comparable items (strings, unicode, lists; empty ones included) and cost settings",
  "Tests compare a few word pairs.",
  "lib/daeso/string/levenshtein.py lib/daeso/string/lcs.py lib/daeso/string/median.py",
  [("dynamic programming tables", "lib/daeso/string/levenshtein.py")], (), ["function results"])

p("C22", "Sequence alignments are valid and optimal",
  "For every similarity and (zero or negative) gap cost per item, the score table of a global alignment holds the best score for every pair of prefixes, and the alignment returned is an increasing sequence of pairs whose score - similarities plus the cost of every item skipped - is the best possible. A local alignment has the same guarantees over all pairs of contiguous segments, is empty only if nothing scores above zero, and its table has no negative entries. Of the successive local alignments the first is a best local alignment ending earliest, asking for fewer gives a prefix of the same list, and no pair of items is aligned twice. The score table gives for every cell, besides its score, a step that accounts for it (in a local table, if the score is not zero), and the printed score and alignment matrices state the returned scores, steps and pairs at the numbers and items of the two sequences.",
  "inputs", "all sequence pairs and all similarity and gap-cost functions",
  "Tests align a few textbook examples.",
  "lib/daeso/string/needleman_wunsch.py lib/daeso/string/smith_waterman.py lib/daeso/string/waterman_eggert.py",
  [("score matrices and trace back", "lib/daeso/string/needleman_wunsch.py")], [("score matrix", "best score ending at (i,j)", "alignment classes")], ["align results"])

p("C23", "N-grams, skip-bigrams and ROUGE scores follow their definitions",
  "The n-grams of a sequence are all its contiguous runs of n items in order, with the requested padding, as slices of the sequence's own type or joined into strings; its skip bigrams are all ordered pairs of items within the allowed skip distance. ROUGE-N is the number of candidate n-grams that also occur in the references, each reference n-gram counted once, divided by the number of reference n-grams; ROUGE-L, -S and -SU are the F-scores (with the given weight of recall) over the longest common subsequence and over the skip bigrams. All scores lie between 0 and 1 and are defined for empty, short and very long inputs, for any type of sequence.",
  "inputs", "all sequences, sizes, paddings, skips and reference sets",
  "Tests use a few sentences.",
  "lib/daeso/string/ngram.py lib/daeso/string/sgram.py lib/daeso/string/rouge.py",
  [("ngram, sgram, rouge", "lib/daeso/string/rouge.py")], (), ["function results"])

p("C24", "Token similarity and tf-idf measures follow their definitions",
  "Each similarity measure of two sequences (type match, token match, overlap, Dice, Jaccard, Tanimoto, cosine) and of many sequences equals its defining ratio, with intersections and unions over types and sizes in items; the ratios lie between 0 and 1, are symmetric, are 1 for equal sequences without repeated items and 0 for sequences with nothing in common, and are defined for empty sequences. The weight of a term in a document is its frequency there (or its presence) times the logarithm of the number of documents over the number of documents that contain it, optionally divided by its greatest possible value, for every term and document of the collection, down to empty and single-document collections.",
  "inputs histories", "all item sequences and document collections",
  "Tests use a few sequences and documents.",
  "lib/daeso/string/similar.py lib/daeso/string/tf_idf.py",
  [("similar, tf_idf", "lib/daeso/string/similar.py")], (), ["function results"])

p("C25", "Dutch number words are spelled by the number's value",
  "Every number from zero up to the largest scale word (below 10 to the 24th) is spelled as the Dutch words for exactly its value: the words read back as the number, different numbers have different spellings, groups of zeros are not spoken (and \"nul\" is only used for zero itself), scale words are separated by single spaces, and four-digit numbers with a non-zero second digit are counted in hundreds unless that is switched off. Using the module prints nothing.",
  "inputs", "all numbers in the supported range",
  "There is a single printed example.",
  "lib/daeso/string/number.py",
  [("spell", "lib/daeso/string/number.py")], (), ["function result"])

p("C26", "The generic cache is a bounded LRU cache with expiry",
  "Keys are compared by their string form, whatever operation they are given to. After any history of operations (item access, insert with a key or a cache node, fetch, removal, clear, collect, reconfigure, passing time) the cache never holds more entries than its limit; a new entry pushes out the least recently used entries (used: stored or fetched), only when the limit would be exceeded and no more than needed, and storing a key that is already there pushes out nothing. For a present key whose lifetime has not passed since it was last stored, fetch returns the value stored last; an expired value is never returned but dropped, and collect drops exactly the expired ones. A missing key gives None, the caller's substitute or KeyError, as the call or else the constructor asks. A value that has to be generated (fetch_with_generator, or a cached function) is generated exactly once per miss with the caller's arguments, whatever default_fail is, also when the generator itself uses the cache, and a generator that fails stores nothing; None is a value like any other. A function cached without a key function of its own is called once per combination of its name, its arguments and their keyword values. Every operation ends; length, membership and keys agree with the entries held.",
  "histories", "all sequences of store, fetch, generate, delete, clear, collect, resize and time steps, over all keys, limits and lifetimes",
  "Tests fill a cache a few times; eviction order and ageing depend on the whole history.",
  "lib/daeso/thirdparty/GenericCache/GenericCache.py lib/daeso/thirdparty/GenericCache/LRUStock.py lib/daeso/thirdparty/GenericCache/decorators.py",
  [("LRU list and expiry", "GenericCache, LRUStock")], [("entries", "key -> value, age", "cache")], ["cache operations"])

p("C27", "The generic cache is linearizable under concurrent use",
  "Threads using one cache concurrently, under any interleaving of their steps, observe results and leave a state explainable by some sequential order of their operations that respects the order of calls and returns: membership, keys, size, fetching, storing, generating, removing, clearing, collecting and reconfiguring are each atomic. No entry is lost or duplicated, a value is generated once however many threads ask for it, the size limit and the order of recent use hold, and no operation fails, waits for ever or never ends because of another thread, also when a generator raises.",
  "schedules", "all interleavings of concurrent operations",
  "Tests are single-threaded.",
  "lib/daeso/thirdparty/GenericCache/GenericCache.py lib/daeso/thirdparty/GenericCache/LRUStock.py lib/daeso/thirdparty/GenericCache/decorators.py",
  [("lock", "synchronized")], (), ["concurrent histories"])

p("C28", "Multiset counters and ordered dictionaries keep their contracts",
  "A counter holds for each item the number of times it was counted; multiset sum, difference, union and intersection and the most-common listing follow from these counts. An ordered dictionary behaves as a dictionary whose iteration order is the order of first insertion, through every update, deletion, reinsertion, copy and pop.",
  "histories", "all operation sequences over any hashable keys",
  "There are no tests of these containers' histories.",
  "lib/daeso/thirdparty/odict.py lib/daeso/thirdparty/counter.py",
  [("odict, counter", "thirdparty")], (), ["container operations"])

p("C29", "Assignments are minimum-cost perfect matchings",
  "For every cost matrix (square or rectangular, with ties and zeros) the assignment returned uses each row and each column at most once, assigns as many as the smaller dimension allows, and has the lowest total cost of all such assignments; the matrix given is left unchanged.",
  "inputs", "all finite cost matrices",
  "Tests solve a few fixed matrices.",
  "lib/daeso/thirdparty/munkres.py",
  [("Munkres steps", "munkres")], (), ["compute result"])

p("C30", "Corpus scripts preserve the corpus they process",
  "Splitting a corpus writes as many parts as asked for (or parts of the size asked for): contiguous, non-empty, of nearly equal size, together all pairs in order, each named after the positions of its pairs such that the file names sort in that order; the original stays as it is. Joining corpora writes one corpus with their pairs in file-name order, or refuses when their relations differ; joining the parts of a split gives the original corpus. Copying writes a corpus with the same pairs at the target (never over an existing file unless asked, never over itself, skipping sources that do not exist or are no corpora) whose graphbank paths denote the same files as before. Changing a path prefix changes exactly the graphbank paths with that prefix and nothing else (no file in a dry run). An archive holds each corpus and each graphbank in use exactly once and can be read where it is unpacked, or is refused when two files would have the same name. A corpus whose graphbanks cannot be read is refused by scripts that need them, and no script touches any other file. All this also when paths contain spaces, glob characters or non-ASCII characters.",
  "inputs configurations", "all corpora, numbers of parts, directories and path options",
  "The script tests run each script once on one corpus.",
  "bin/pgc_split.py bin/pgc_join.py bin/pgc_cp.py bin/pgc_chdir.py bin/pgc_zip.py lib/daeso/pgc/corpus.py lib/daeso/utils/opsys.py",
  [("scripts", "bin")], (), ["files written"])

p("C31", "Corpora are created from exactly the linked sentence pairs asked for, and phrases are extracted exactly as aligned",
  "Creating a corpus from a parallel text document and two graphbanks yields one graph pair for each link between elements of the wanted tags (in the order of the links, repetitions included) whose extracted texts have no more than the maximum number of white-space separated tokens on either side and differ in at least the minimum number of (case-insensitive) tokens; the pair consists of the graphs with the ids of the linked elements, has no alignments, and refers to the given graphbanks. A wanted link to an element or graph that does not exist is refused and writes no corpus. The corpus is written in the current directory under the name of the document; each of several documents is dealt with separately. Extracting phrases prints, for each alignment of each pair of each corpus in order, exactly one UTF-8 line with the token strings of the two nodes and their relation (preceded by graphbank paths, graph ids and node ids if asked for), separated by the delimiter. No input is changed.",
  "inputs configurations", "all texts, links, graphbanks, tags, bounds, delimiters and file locations",
  "There are no tests of corpus creation or phrase extraction.",
  "lib/daeso/pgc/creation.py bin/pgc_from_ptc.py bin/pgc_extract_phrases.py lib/daeso/ptc/document.py lib/daeso/ptc/ielemtree.py",
  [("pgc_from_ptc", "pgc/creation"), ("extract_phrases", "bin/pgc_extract_phrases")], (), ["corpora written", "lines printed"])

p("C32", "Element trees keep their content when compared, indented and stored",
  "Two element trees are equal exactly when they have the same shape and corresponding elements have the same tag, the same attributes and, up to surrounding white space, the same text and tail; so equality is reflexive, symmetric and transitive, and sees every other difference however deep. Indenting a tree puts every child on a line of its own, two blanks further in than its parent, by changing texts and tails that consist of white space only; so the tree stays equal to what it was and indenting again changes nothing. Writing a tree gives one XML document with one declaration, from which the same tree is read back (indented first if pretty printing is asked for, unchanged otherwise), whatever its characters; a file opened by the caller stays open. No operation on one tree affects another.",
  "histories inputs", "all trees and all sequences of edits, comparisons, indenting and writing",
  "Tests compare two or three fixed elements and never indent or write one that has text of its own.",
  "lib/daeso/utils/etree.py",
  [("equals", "lib/daeso/utils/etree.py"), ("indent", "lib/daeso/utils/etree.py"), ("write", "lib/daeso/utils/etree.py")],
  [("element tree", "tag, text, tail, attributes, children", "ElementTree element")], ["equals", "indent", "write", "file contents"])

p("C33", "Directories are made and file patterns expanded reliably",
  "Making a directory with all those above it succeeds if they exist already, adds exactly the missing ones, and otherwise fails with an error (never silently) and makes nothing. A file pattern stands for exactly the existing paths whose components match - * any characters, ? one, [..] and [!..] one of (or none of) a set with ranges; hidden names only if the pattern shows it - in the order of their names, written the way the pattern is (relative, absolute, bytes or unicode). Several patterns stand for all that each of them stands for, in one order, and a path that exists stands for itself whatever characters it contains. A path as a unicode string is the same path, and bytes that are no text in the encoding of the file system are left alone. Looking changes no file.",
  "histories inputs", "all directory trees and patterns",
  "Tests use one or two patterns with plain names.",
  "lib/daeso/utils/opsys.py",
  [("makedirs", "lib/daeso/utils/opsys.py"), ("multiglob", "lib/daeso/utils/opsys.py")], [("file system", "path -> file or directory", "scratch directory")], ["paths returned", "files and directories"])

p("C34", "Command lines are understood as declared",
  "For every declaration of positional arguments, options and mutually exclusive groups as the scripts make them, a command line is read from left to right. An option may be given in full or shortened to a beginning that no other option shares (a complete name always stands for itself), its value separately or joined to it (\"--name=value\", \"-nvalue\"), and flags of one letter in one word; it takes as many values as declared, up to the next option or \"--\". What starts with \"-\" is a value only if it is \"-\", a negative number (and no option looks like one), contains a blank, or comes after \"--\". Values in a row are handed to as many positional arguments as they suffice for, each as many as it may have while leaving the others what they need. The result holds exactly the declared attributes with the values given (the last one, all of them, or their number, as declared; converted to the declared type) and the defaults for what is absent, whatever lines the parser has read before. Everything else - unknown, ambiguous or left-over words, missing or excessive values, values of the wrong type or not among the choices, missing required arguments, options that exclude each other - prints the usage and a reason on standard error and exits with status 2; help and version, when they come first, print the declared arguments or the version and exit with status 0.",
  "inputs configurations", "all declarations of arguments and all command lines",
  "Tests never parse a command line but the few the script tests use.",
  "lib/daeso/utils/cli.py lib/daeso/thirdparty/argparse.py",
  [("parse_args", "lib/daeso/thirdparty/argparse.py"), ("DaesoArgParser", "lib/daeso/utils/cli.py")], [("reader", "position, values, arguments left and seen", "namespace")], ["parse_args", "exit status and messages"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
