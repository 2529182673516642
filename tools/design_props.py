# id -> (spec modules, driver, what is specified / laws, model bounds, random part and what is observed, notes)
D = {}
def d(i, *a): D[i] = a
d("C01", "GraphPairs", "gp_driver.py",
  "Heap of graph pairs; a matching is a set of <<s, t, rel>>. Actions: add (undoing alignments of both ends), delete (refused if absent), clear, copy, set meta-data, pickle. Invariants MatchingsOneToOne, RelationsUnique, QueriesAgree (every query is a function of the set); action properties Frame (other alignments untouched) and Independence (other pairs untouched).",
  "3x3 node names *shared by both sides*, 2 relations: 139 states, 3754 transitions, all replayed",
  "up to 8 nodes a side; names equal across sides, ints, 0, empty, non-ASCII, with blanks; chains of re-alignment. After every call all queries for all node pairs, relation filters, length, roots aligned, iteration.")
d("C02", "GraphPairs", "gp_driver.py", "As C01 for the many-to-many kind (no undoing).", "3x2 nodes, 2 relations: 729 states, 13123 transitions (6000 sampled / all)", "as C01")
d("C03", "GraphPairs", "gp_driver.py",
  "Copies share banks and graphs by identity; CopiesEqual; equality is defined on (bank file, graph ids, alignments, meta-data), != is its negation.",
  "two objects, copies, both kinds: 210 + 342 states, 9424 transitions",
  "pairwise differences of one component at a time, including banks that are the same file under another spelling (hard link, symlink, dot path, sparse loading), 16 kinds of meta-data (attributes, text, tails, nesting, non-ASCII, empty vs absent), pairs with differing object kinds; identity of shared banks/graphs observed.")
d("C04", "Corpus, PyList", "corpus_driver.py",
  "PyList gives Python's list semantics (negative and clamped indices, extended slices, errors); Corpus adds relations, meta-data and the refusals. Laws (an independent statement of +, *, slicing), Others (operands not changed), Derived (relations and meta-data of results), Refused (state unchanged).",
  "three families (operations / reading / storing) of corpora up to 3-4 pairs, all index and slice combinations in -Hi..Hi: 210k transitions (2500 each sampled / 25000)",
  "histories of 10-60 operations over up to 6 pairs, the same pair occurring more than once; results compared by identity of pairs.")
d("C05", "Corpus", "corpus_driver.py", "EqEquivalence, Independent (changing one corpus' pair shows only where that pair is shared, never in a deep copy), CopyFresh.",
  "contents and copies, depth 3 / 4: 17902 states, 48868 transitions", "pairwise differences in one component; nested meta-data; sharing of pairs among corpora.")
d("C06", "Store", "store_driver.py",
  "Files as functions from canonical paths to documents and banks, with symbolic links, hard links (inodes), working directory and moves of whole trees. A corpus document lists entries (id, path as written) and references; reading is its denotation. Laws: RoundTrip, Moves, PathLaws (a relative path resolved from its directory is the file, through links).",
  "1449 states, 3928 transitions (depth 3 / 4): banks, two corpora, two directories",
  "up to 4 banks, links, symlinked directories, non-ASCII directories, relative/absolute, pretty/plain, names/open files, from other working directories; the written XML is parsed by an independent parser and judged (entries, references, meta-data).")
d("C07", "Store", "store_driver.py", "ModesAgree: all / aligned / none denote equal corpora; which graphs must be real; errors for undefined banks, missing graphs and files; relaxed paths denote the named file, else the one beside the corpus.",
  "as C06", "hand-made corpus documents: entries with detours, repeated files under several ids, shared banks, self-aligned graphs, missing pieces; all modes, by name/open file/working directory.")
d("C08", "Store", "store_driver.py", "PurgeKeeps, PurgeUnique: one bank object per file (identity observed), pairs keep their file and graph ids; RoundTrip; every file listed once, unique ids, only those in use.",
  "as C06", "joining corpora read separately over the same banks (other spellings, links), slices, purge of a pair or corpus, rewriting after joining, files removed in between.")
d("C09", "GraphML", "gml_driver.py",
  "Denote(document) and the streaming parser as a machine over start/end events; StreamEqualsDenotation, BalancedContext, SparseIsRestriction, DataAnywhere.",
  "documents of 2 graphs (1/2 items) and of 1 graph (3/4 items): 28k / 300k documents, 2000 / 30000 replayed",
  "larger documents; keys general and per component, defaults, data before/after/inside, values with entities, CDATA, comments, non-ASCII, chunked reading, reading by name/file/string/bank; sparse loading of any subset.")
d("C10", "OGraph", "graph_driver.py", "A graph is node and edge sequences in insertion order with attributes; SameSets (as a set a plain digraph), KeepsOrder, CopySame, Others.",
  "2 nodes depth 3 (3 nodes thorough): 2761 states, 8571 transitions", "up to 12 nodes of mixed types, re-adding, removing, bulk additions with shared attribute dictionaries, copies, subgraphs, reversals, conversions.")
d("C11", "OGraph", "graph_driver.py", "YieldLaws (yield of a node is the concatenation of its successors' yields; filters), TreeYield; classification by tokens and out-degree.",
  "2 nodes depth 4/5, 3 nodes depth 3/4: 4794 transitions", "trees and DAGs up to 17 nodes, tokens with punctuation and empty, false node ids, all queries for all nodes, token strings with all white space.")
d("C12", "AlignEval, AlignEvalObs", "eval_driver.py", "Counts, P/R/F, sums, micro/macro mean and sample deviation as exact rationals; Sane, Swap, Partition, OrderFree.",
  "three models (3 node pairs; two corpora; two graph pairs): 7646 states, all replayed", "up to 5 corpora, all relation sets, repeated evaluation; the written report is parsed and judged.",
  "Relations outside the five of DAESO are out of scope (the counts use a fixed table of these).")
d("C13", "Agreement", "agree_driver.py", "Symmetric, Complete, PerfectWithSelf, MeansAgree, WordsOnly.", "2 and 3 annotators, 2 node pairs: 820 states (350 / all)", "up to 5 annotators, words only, printed tables and pickles parsed.")
d("C14", "Stats", "stats_driver.py", "PartsAddUp, Monotone (adding an exclusion never raises a count), Excluded.", "all options over corpora of 1 and 2 pairs: 380 states", "worlds of up to 3 banks; scripts pgc_stats, gb_stats; printed tables parsed.")
d("C15", "Table", "table_driver.py", "Typed columns; RoundTrip, GrowKeeps, OthersKept, Sums.", "two tables of two rows, depth 4/5: 606 states", "wide and long figures, names with blanks, dashes, empty; segment tables over directory trees.")
d("C16", "Diff", "diff_driver.py", "Each pair of nodes is reported in exactly one class; Partition, Swap, Same, Limits.", "3 node pairs, 2 relations: 1486 states", "trees with non-ASCII labels and texts, comments, several pairs; the printed report is parsed completely.")
d("C17", "ElemTree", "elem_driver.py", "Spans by recursion over the tree; Total, Nested, Own, Fewer, Counting.", "trees of 3 and 4 elements, all configurations: 1262 states", "trees of up to 20 elements, texts with white space and non-ASCII, sequences of updates with other configurations.")
d("C18", "PtcDoc", "ptc_driver.py", "Document (links, method, renderings, file names) over two texts; inject, extract, convert, write, read; Homogeneous, ConvertKeeps, InjectExtract, Mirrored, WriteRead.", "568 states, 2132 transitions, all replayed", "larger texts, search for texts in the three places, scripts ptc_n_to_id and ptc_chdir on several documents with dry run.")
d("C19", "PtcEval", "ptceval_driver.py", "Counts per document and overall; Sane, Swap, Agree.", "20546 states", "links by position/id in either document, between elements of different tags, several documents; both written reports parsed.",
  "A link counts for a tag if *both* its elements have it in the evaluation; the comparison looks at the source element's tag only (as its help text says).")
d("C20", "TextAlign", "textalign_driver.py", "Candidates per linked scope pair, scores, filters; greedy choice without crossing modulo ties; GreedyIsOk, NeverEmpty, BestIn.", "244 states (scores 0..2 / 0..3)", "all term types, similarities, thresholds, scopes, ignored tags, clearing, repeated runs; scores recomputed from the texts.",
  "Lemmas and pos tags need daeso_nl, which is not installed: stubbed by the driver.")
d("C21", "SeqDist", "seq_driver.py", "LevIsLeast and LcsIsLongest against enumeration of all edit scripts / subsequences; Bounds, Triangle, Median.", "all pairs up to length 3 over 2-3 items: 641 states", "strings, unicode, lists, tuples up to length 30, equal but not identical items; symmetric calls; arguments kept.")
d("C22", "SeqAlign", "seq_driver.py", "Tables and traces; GlobalIsBest/LocalIsBest against enumeration of *all* alignments / segments; UsedLess/UsedNone: successive local alignments on the remaining pairs.", "900 states: all pairs up to length 3, several similarities and per-item gap costs", "up to length 12, random similarity tables and per-item gaps; all table cells.",
  "The successive alignments of the code (Waterman-Eggert) recalculate only part of the table, so later alignments are not always the best left and a pair may be aligned again; the existing test test_waterman_eggert_1 expects such output, so it is not repaired. Weak form judged on all inputs (first alignment best, prefix property for smaller n, each alignment increasing); the strict form on a fixed bank of 23 inputs, each a known finding by input and failing clauses.")
d("C23", "Rouge, Sim", "seq_driver.py", "N-grams, skip bigrams, ROUGE-N/L/S/SU; Range, Same, Sym, SkipLaws.", "305 states", "padding, joined n-grams, all sequence types, beta and skip distances, sequences of 1500 items.")
d("C24", "Sim, TfIdf", "seq_driver.py", "Ratios as fractions; Symmetric, InUnit, Alike, Unlike, Ordered, General, GBound; weights: Zero, Bound, Rarer, Order.", "726 states", "sequences of up to 12 items, many-sequence measures, collections of up to 6 documents, all terms and documents (generator and single lookups).")
d("C25", "Numbers", "number_driver.py", "Words of a number by groups of three, and an independent *reader* of word sequences: ReadsBack, Tidy, Leading.", "all groups below a thousand and boundary groups up to 3/4 groups: 4224 states, all replayed", "numbers up to 10^24, with and without hundreds counting, also given as long and by keyword; nothing printed on import.")
d("C26", "Cache", "cache_driver.py", "LRU list with times; operations incl. generator bodies that use the cache and may raise. Bounded, Distinct, Fresh, Pushed (what is pushed out and when), Kept, Recent, Stable, Once (one generator call per miss), Honest.", "7552 states, 61k transitions + 4 operations deep: 4900 states", "histories of 30-80 operations, clock moved by the driver (time.time replaced), keys of all types.")
d("C27", "CacheConc, Cache, CacheTrace", "cacheconc_driver.py", "Threads as processes of several steps on shared state with the lock; every interleaving must be linearizable (Linearizable), Bounded, Mutex, NoStuck. With Locked = FALSE the model violates Linearizable (sanity of the invariant).", "1+1 and 2+1 operations over two threads, all interleavings: 965k states (2+2 thorough)", "the code runs under a scheduler that blocks every thread at every traced line of GenericCache and grants one at a time (all pairs of preemption points / seeded random schedules); TLC looks for a linearization respecting call/return order.",
  "Expiry by the clock is left to C26: time does not advance in these runs.")
d("C28", "Containers", "containers_driver.py", "Bags as functions, ordered dictionaries as sequences of <<k, v>>; Algebra, NoTwice, Order.", "counters 1141 states / 9538 transitions, dictionaries depth 3/4 5686 / 24697", "all methods incl. views, comparisons, pickling, copies, updates from every kind of argument.")
d("C29", "Munkres", "munkres_driver.py", "The algorithm's six steps as a machine: Independent (starred zeros), Reduced, Ends, Going, Agree, and Optimal against enumeration of all assignments.", "shapes up to 3x3 over 0..2 (quick), 4x4, 3x4, 4x2 and negative costs (thorough): 36k / 400k states", "up to 6x6, floats and huge costs, ties, one solver used for several matrices, make_cost_matrix, the input matrix kept.",
  "Optimality of recorded assignments: by enumeration up to 4x4, beyond that by the absence of an improving cycle or path (NoGain), which is equivalent; Agree checks the equivalence on the small ones.")
d("C30", "Store", "scripts_driver.py", "Scripts as actions on the files of Store: split, join, cp, chdir, zip; NoLoss, CopySame, OthersKept, ChdirBack, Unpacked.", "depth 2 / 3: 812 states, 3563 transitions", "options, globs, links, other working directories, missing and bad sources, existing targets; whole directory snapshot judged after each script.")
d("C31", "Creation", "creation_driver.py", "Links x texts x banks -> pairs; phrases of aligned nodes; Monotone, Unbound, Mirrored, OneLine.", "14861 states, 28329 transitions", "several documents at once, all options of the three scripts, tags, repeated links, missing elements and graphs, non-ASCII; output files parsed.",
  "Texts without blanks between tokens (\"glued\" words) are tokens as the code's white-space splitting defines them.")
d("C32", "ETree", "etree_driver.py", "Heap of element trees (tag, text, tail, attributes, children). Actions: edit at any path, indent, write-and-read. Same (equality up to white space), Indent and Stored define the expected tree exactly; laws Equivalence, Indented (indenting is invisible to equality and idempotent), IndentBlind, SameWords; FileKeeps, OthersKept.",
  "two trees of 2 nodes, 3 operations; one tree of 4 nodes, 4 (5) operations (17565 states, 21785 transitions with the traces)", "up to 3 trees of 15 nodes, 40 operations, texts with markup characters, blanks and newlines, non-BMP characters, None and empty, bytes and unicode; after every operation all trees and all equalities; files by name, handle, string buffer and stdout, with any encoding argument.",
  "Attributes and texts contain no tabs or carriage returns, which XML itself normalizes.")
d("C33", "Files", "opsys_driver.py", "A file system (path -> file or directory) with makedirs, touch, remove, glob, multiglob; Fits defines what a pattern matches, character by character. Laws: Tree, InOrder, Stepwise (a pattern finds what each part finds in what the part before found), Star, Itself, Together, Made.",
  "3 (4) names, 2 levels, 3 operations; 5 patterns, also one below the other", "200 (4000) random histories over 22 names (spaces, glob characters, hidden, non-ASCII) and 30 patterns up to 3 levels; after every operation the whole tree is compared. All in a scratch directory.",
  "Names with a slash at the end and paths with \"..\" are not specified.")
d("C34", "CmdLine", "cmdline_driver.py", "A state machine over the words of a command line (next word, attributes, positional arguments left, arguments seen, outcome); Classify and Step say what a word is and what it does. Laws: Forward, Agrees, AllRead, NoHelp, Exclusive; Joined (value joined = value apart), Short (abbreviation = full name), Apart (flags in one word = one by one), First (an option may come first).",
  "5 parsers x all lines of 3 (4) words from 12 (40526 states)", "250 (5000) random parsers (all argument counts, types, choices, defaults, constants, shared attributes, exclusive groups), 20 lines each read by one parser: sensible lines with abbreviations, joined values, bundles, \"--\", and lines with something odd.",
  "What \"-n=value\" and a second \"--\" mean is left open; parsers within parsers, files of arguments and parent parsers are not used by the framework and not specified.")
