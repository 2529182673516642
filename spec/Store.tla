------------------------------- MODULE Store -------------------------------
(* Corpora in memory, corpus documents and graphbanks on disk.

   A path is a sequence of names below the scratch root.  The state has
     fs    files: path -> [ino, kind, gs, doc]   (hard links share ino; gs: graph ids of a bank)
     ln    symbolic links: path -> real path
     mem   corpora: name -> [rels, meta, pairs]
   A corpus document is [rels, meta, files, pairs]: files have an id and a path, absolute or relative
   to the directory of the document; pairs name two file ids, two graph ids, alignments, meta-data.
   A pair in memory is [sb, tb, sg, tg, sk, tk, st, tt, al, meta]: bank paths, graph ids, whether the
   graph is loaded ("graph") or not ("stub"), which graph it is ("<ino>:<id>"), alignments, meta-data, and
   its identity `id` (corpora share pairs). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Front1(p) == SubSeq(p, 1, Len(p) - 1)
Last1(p) == p[Len(p)]
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE PStr(_)
PStr(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o PStr(Tail(p))

\* ---------------------------------------------------------------- paths
RECURSIVE Walk(_, _, _)
Walk(ln, acc, rest) ==
    \* ".." at the start leads out of the scratch tree
    IF rest = <<>> THEN acc
    ELSE IF Head(rest) \in {".", ""} THEN Walk(ln, acc, Tail(rest))
    ELSE IF Head(rest) = ".." THEN Walk(ln, IF acc = <<>> \/ Last1(acc) = ".." THEN Append(acc, "..") ELSE Front1(acc), Tail(rest))
    ELSE LET a == Append(acc, Head(rest)) IN Walk(ln, IF a \in DOMAIN ln THEN ln[a] ELSE a, Tail(rest))
Real(ln, p) == Walk(ln, <<>>, p)
Resolve(ln, dir, p) == Walk(ln, Real(ln, dir), p)

RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN 0 ELSE 1 + Common(Tail(a), Tail(b))
RelPath(f, dir) == LET c == Common(f, dir) IN
                   [j \in 1..(Len(dir) - c) |-> ".."] \o SubSeq(f, c + 1, Len(f))

\* annotators are part of a corpus' meta-data (see Corpus)
C == INSTANCE Corpus WITH PairNames <- {}, MaxN <- 0, Hi <- 0, MaxDepth <- 0, Family <- "", s <- [metas |-> <<>>], hist <- <<>>
SetAnnot(t, who, app) == C!SetAnnot(IF t = "none" THEN "m0" ELSE t, who, app)
Annot(t) == C!Annot(t)

Exists(s, p) == p \in DOMAIN s.fs
FileId(s, p) == IF Exists(s, p) THEN "i:" \o s.fs[p].ino ELSE "p:" \o PStr(p)

\* ---------------------------------------------------------------- memory
Key(s, x) == [sb |-> FileId(s, x.sb), tb |-> FileId(s, x.tb), sg |-> x.sg, tg |-> x.tg, al |-> x.al, meta |-> x.meta]
SamePair(s, x, y) == Key(s, x) = Key(s, y)
SameCorpus(s, a, b) == /\ a.rels = b.rels /\ a.meta = b.meta /\ Len(a.pairs) = Len(b.pairs)
                       /\ \A j \in 1..Len(a.pairs) : SamePair(s, a.pairs[j], b.pairs[j])
FilesOf(s, c) == UNION {{FileId(s, c.pairs[j].sb), FileId(s, c.pairs[j].tb)} : j \in 1..Len(c.pairs)}

\* ---------------------------------------------------------------- documents
\* where file entry f of a document in directory dir leads
Lead(s, dir, f, relax) ==
    LET p == IF f.abs THEN Real(s.ln, f.path) ELSE Resolve(s.ln, dir, f.path) IN
    IF relax /\ ~Exists(s, p) THEN Append(Real(s.ln, dir), Last1(p)) ELSE p
Entry(doc, id) == CHOOSE j \in 1..Len(doc.files) : doc.files[j].id = id
HasEntry(doc, id) == \E j \in 1..Len(doc.files) : doc.files[j].id = id

\* clauses broken by document d as the result of writing corpus c into directory dir
DocBad(s, c, dir, abs, d) ==
    LET lead == [j \in 1..Len(d.files) |-> Lead(s, dir, d.files[j], FALSE)]
        ids == {d.files[j].id : j \in 1..Len(d.files)}
        ok(id) == HasEntry(d, id)
    IN (IF Cardinality(ids) = Len(d.files) THEN {} ELSE {"written graphbank ids are unique"})
       \cup (IF \A i, j \in 1..Len(d.files) : FileId(s, lead[i]) = FileId(s, lead[j]) => i = j
             THEN {} ELSE {"a graphbank file is listed once"})
       \cup (IF {FileId(s, lead[j]) : j \in 1..Len(d.files)} = FilesOf(s, c)
             THEN {} ELSE {"exactly the graphbanks in use are listed"})
       \cup (IF \A j \in 1..Len(d.files) : d.files[j].abs = abs THEN {} ELSE {"absolute/relative paths as asked"})
       \cup (IF d.rels = c.rels THEN {} ELSE {"written relations"})
       \cup (IF d.meta = c.meta THEN {} ELSE {"written corpus meta-data"})
       \cup (IF Len(d.pairs) # Len(c.pairs) THEN {"number of pairs written"} ELSE
             UNION {LET x == c.pairs[j]  y == d.pairs[j] IN
                (IF ~ok(y.fb) \/ ~ok(y.tb) THEN {"a pair refers to a listed graphbank"}
                 ELSE IF FileId(s, lead[Entry(d, y.fb)]) = FileId(s, x.sb) /\ FileId(s, lead[Entry(d, y.tb)]) = FileId(s, x.tb)
                 THEN {} ELSE {"a pair refers to its own graphbanks"})
                \cup (IF <<y.sg, y.tg>> = <<x.sg, x.tg>> THEN {} ELSE {"written graph ids"})
                \cup (IF y.al = x.al THEN {} ELSE {"written alignments"})
                \cup (IF y.meta = x.meta THEN {} ELSE {"written pair meta-data"})
                : j \in 1..Len(c.pairs)})

\* the document the specification itself would write (used by the model)
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>> ELSE
           LET r == Uniq(Front1(q)) IN IF \E j \in 1..Len(r) : r[j] = Last1(q) THEN r ELSE Append(r, Last1(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
DocOf(s, c, dir, abs) ==
    LET paths == Flat([j \in 1..Len(c.pairs) |-> <<c.pairs[j].sb, c.pairs[j].tb>>])
        idq == Uniq([j \in 1..Len(paths) |-> FileId(s, paths[j])])
        idof(p) == CHOOSE j \in 1..Len(idq) : idq[j] = FileId(s, p)
        pathof(j) == paths[CHOOSE k \in 1..Len(paths) : FileId(s, paths[k]) = idq[j]]
    IN [rels |-> c.rels, meta |-> c.meta,
        files |-> [j \in 1..Len(idq) |-> [id |-> ToString(j), abs |-> abs,
                     path |-> IF abs THEN pathof(j) ELSE RelPath(pathof(j), Real(s.ln, dir))]],
        pairs |-> [j \in 1..Len(c.pairs) |->
                     [fb |-> ToString(idof(c.pairs[j].sb)), tb |-> ToString(idof(c.pairs[j].tb)),
                      sg |-> c.pairs[j].sg, tg |-> c.pairs[j].tg, al |-> c.pairs[j].al, meta |-> c.pairs[j].meta]]]

\* what a graphbank file contains: a copy of a file keeps the content of the original
Content(f) == IF "tok" \in DOMAIN f THEN f.tok ELSE f.ino
\* reading: the corpus a document in directory dir denotes
Loaded(mode) == mode # "none"
PairOf(s, doc, dir, relax, mode, y) ==
    LET a == Lead(s, dir, doc.files[Entry(doc, y.fb)], relax)
        b == Lead(s, dir, doc.files[Entry(doc, y.tb)], relax)
        k == IF Loaded(mode) THEN "graph" ELSE "stub"
    IN [sb |-> a, tb |-> b, sg |-> y.sg, tg |-> y.tg, sk |-> k, tk |-> k,
        st |-> IF Loaded(mode) THEN Content(s.fs[a]) \o ":" \o y.sg ELSE "",
        tt |-> IF Loaded(mode) THEN Content(s.fs[b]) \o ":" \o y.tg ELSE "",
        al |-> y.al, meta |-> y.meta, id |-> 0]
\* why a document cannot be read ({} if it can)
Faults(s, doc, dir, relax, mode) ==
    (IF \A j \in 1..Len(doc.pairs) : HasEntry(doc, doc.pairs[j].fb) /\ HasEntry(doc, doc.pairs[j].tb)
     THEN {} ELSE {"undefined graphbank"})
    \cup (IF \A j \in 1..Len(doc.pairs) : "None" \notin {doc.pairs[j].sg, doc.pairs[j].tg} THEN {} ELSE {"missing graph id"})
    \cup (IF ~Loaded(mode) \/ \A j \in 1..Len(doc.files) : Exists(s, Lead(s, dir, doc.files[j], relax))
          THEN {} ELSE {"missing graphbank file"})
    \cup (IF ~Loaded(mode) THEN {} ELSE
          IF \A j \in 1..Len(doc.pairs) : LET y == doc.pairs[j] IN
               \A z \in {<<y.fb, y.sg>>, <<y.tb, y.tg>>} :
                  HasEntry(doc, z[1]) =>
                      LET p == Lead(s, dir, doc.files[Entry(doc, z[1])], relax) IN
                      Exists(s, p) => z[2] \in s.fs[p].gs
          THEN {} ELSE {"missing graph"})
ReadDoc(s, doc, dir, relax, mode) ==
    [rels |-> doc.rels, meta |-> doc.meta,
     pairs |-> [j \in 1..Len(doc.pairs) |-> PairOf(s, doc, dir, relax, mode, doc.pairs[j])]]

\* ---------------------------------------------------------------- file system operations
MvPath(p, a, b) == IF IsPre(a, p) THEN b \o SubSeq(p, Len(a) + 1, Len(p)) ELSE p
Move(s, a, b) == LET D == DOMAIN s.fs
                     new == {MvPath(p, a, b) : p \in D} IN
                 [s EXCEPT !.fs = [q \in new |-> s.fs[CHOOSE p \in D : MvPath(p, a, b) = q]]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

SetMem(s, c, x) == [s EXCEPT !.mem = Upd(s.mem, c, x)]
\* put a new corpus in memory, numbering its pairs
NewMem(s, c, x) == [s EXCEPT !.mem = Upd(s.mem, c, [x EXCEPT !.pairs = [j \in 1..Len(x.pairs) |-> [x.pairs[j] EXCEPT !.id = s.next + j]]]),
                             !.next = s.next + Len(x.pairs)]
\* a deep copy: a pair that occurs twice is copied once
DeepCopy(s, c, x) ==
    LET first(j) == CHOOSE i \in 1..j : x.pairs[i].id = x.pairs[j].id /\ \A h \in 1..(i - 1) : x.pairs[h].id # x.pairs[j].id IN
    [s EXCEPT !.mem = Upd(s.mem, c, [x EXCEPT !.pairs = [j \in 1..Len(x.pairs) |-> [x.pairs[j] EXCEPT !.id = s.next + first(j)]]]),
              !.next = s.next + Len(x.pairs)]
\* change pairs wherever they are shared
MapPairs(s, F(_)) == [s EXCEPT !.mem = [c \in DOMAIN s.mem |->
                        [s.mem[c] EXCEPT !.pairs = [j \in 1..Len(s.mem[c].pairs) |-> F(s.mem[c].pairs[j])]]]]

\* ---------------------------------------------------------------- command line scripts
IsDoc(s, p) == Exists(s, p) /\ s.fs[p].kind = "pgc"
\* the corpus a document denotes, graphs not loaded
Stubs(s, p) == ReadDoc(s, s.fs[p].doc, Front1(p), FALSE, "none")
DocFile(d) == [ino |-> "doc", kind |-> "pgc", gs |-> {}, doc |-> d]
PutDoc(s, p, c) == [s EXCEPT !.fs = Upd(s.fs, p, DocFile(DocOf(s, c, Front1(p), FALSE)))]

\* text
Starts(t, a) == Len(a) <= Len(t) /\ SubSeq(t, 1, Len(a)) = a
RECURSIVE JoinP(_)
JoinP(p) == IF Len(p) = 0 THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o JoinP(Tail(p))
RECURSIVE SplitP(_, _)
SplitP(t, w) == IF t = "" THEN <<w>>
                ELSE IF SubSeq(t, 1, 1) = "/" THEN <<w>> \o SplitP(SubSeq(t, 2, Len(t)), "")
                ELSE SplitP(SubSeq(t, 2, Len(t)), w \o SubSeq(t, 1, 1))
RootName == "%ROOT%"
Txt(f) == IF f.abs THEN RootName \o "/" \o JoinP(f.path) ELSE JoinP(f.path)
FromTxt(t) == IF Starts(t, RootName \o "/") THEN [abs |-> TRUE, path |-> SplitP(SubSeq(t, Len(RootName) + 2, Len(t)), "")]
              ELSE [abs |-> FALSE, path |-> SplitP(t, "")]
RECURSIVE Pad(_, _)
Pad(t, w) == IF Len(t) >= w THEN t ELSE Pad("0" \o t, w)
LastDot(t) == LET D == {k \in 2..Len(t) : SubSeq(t, k, k) = "."} IN
              IF D = {} THEN Len(t) + 1 ELSE CHOOSE k \in D : \A m \in D : m <= k
PartName(t, i, j, w) == LET k == LastDot(t) IN
    SubSeq(t, 1, k - 1) \o "_" \o Pad(ToString(i), w) \o "-" \o Pad(ToString(j), w) \o SubSeq(t, k, Len(t))

\* split: the last positions of the parts
Min2(a, b) == IF a < b THEN a ELSE b
NParts(n, parts, size) == IF size # 0 THEN (n + size - 1) \div size ELSE Min2(parts, n)
Ends(n, parts, size) == [k \in 1..NParts(n, parts, size) |->
                           IF size # 0 THEN Min2(k * size, n) ELSE (k * n) \div NParts(n, parts, size)]
\* any division that is as good
EndsOk(e, n, parts, size) ==
    LET k == NParts(n, parts, size)
        len(j) == e[j] - (IF j = 1 THEN 0 ELSE e[j - 1]) IN
    /\ Len(e) = k
    /\ k > 0 => e[k] = n
    /\ \A j \in 1..k : len(j) > 0
    /\ IF size # 0 THEN \A j \in 1..(k - 1) : len(j) = size
       ELSE \A i, j \in 1..k : len(i) <= len(j) + 1
Part(c, i, j) == [c EXCEPT !.pairs = SubSeq(@, i, j)]
PartPath(p, i, j) == Append(Front1(p), PartName(Last1(p), i, j, 4))
RECURSIVE PutParts(_, _, _, _, _)
PutParts(s, p, c, e, k) == IF k > Len(e) THEN s ELSE
    LET i == IF k = 1 THEN 1 ELSE e[k - 1] + 1 IN
    PutParts(PutDoc(s, PartPath(p, i, e[k]), Part(c, i, e[k])), p, c, e, k + 1)
DoSplit(s, op) == LET c == Stubs(s, op.path) IN PutParts(s, op.path, c, Ends(Len(c.pairs), op.parts, op.size), 1)

\* join
Joinable(s, ps) == \A k \in 1..Len(ps) : s.fs[ps[k]].doc.rels = s.fs[ps[1]].doc.rels
Joined(s, ps) == [Stubs(s, ps[1]) EXCEPT !.pairs = Flat([k \in 1..Len(ps) |-> Stubs(s, ps[k]).pairs])]
DoJoin(s, op) == IF Joinable(s, op.paths) THEN PutDoc(s, op.to, Joined(s, op.paths)) ELSE s

\* cp: a sequence of sources, one after the other
CpTarget(op, k) == IF op.isdir THEN Append(op.target, Last1(op.paths[k])) ELSE op.target
CpDone(s, op, k) == LET t == CpTarget(op, k) IN
    /\ IsDoc(s, op.paths[k])
    /\ Exists(s, t) => op.over /\ Real(s.ln, t) # Real(s.ln, op.paths[k])
RECURSIVE CpFrom(_, _, _)
CpFrom(s, op, k) == IF k > Len(op.paths) THEN s
    ELSE CpFrom(IF CpDone(s, op, k) THEN PutDoc(s, CpTarget(op, k), Stubs(s, op.paths[k])) ELSE s, op, k + 1)
DoCp(s, op) == IF ~op.isdir /\ Len(op.paths) > 1 THEN s ELSE CpFrom(s, op, 1)

\* chdir
NewTxt(t, a, b) == IF Starts(t, a) THEN b \o SubSeq(t, Len(a) + 1, Len(t)) ELSE t
ChDoc(d, a, b) == [d EXCEPT !.files = [j \in 1..Len(d.files) |->
                     LET r == FromTxt(NewTxt(Txt(d.files[j]), a, b)) IN [d.files[j] EXCEPT !.abs = r.abs, !.path = r.path]]]
DoChdir(s, op) == IF op.dry THEN s ELSE
    [s EXCEPT !.fs = [p \in DOMAIN s.fs |-> IF \E k \in 1..Len(op.paths) : op.paths[k] = p
                                            THEN [s.fs[p] EXCEPT !.doc = ChDoc(@, op.pa, op.pb)] ELSE s.fs[p]]]

\* zip, followed by unpacking in directory op.to
ZipFiles(s, ps) == UNION {LET d == s.fs[ps[k]].doc IN {ps[k]} \cup
        {Lead(s, Front1(ps[k]), d.files[Entry(d, id)], FALSE) :
           id \in {d.pairs[j].fb : j \in 1..Len(d.pairs)} \cup {d.pairs[j].tb : j \in 1..Len(d.pairs)}} : k \in 1..Len(ps)}
\* documents are known by their path, graphbanks by the file
SameFile(s, p, q) == p = q \/ (s.fs[p].kind = "gb" /\ s.fs[q].kind = "gb" /\ FileId(s, p) = FileId(s, q))
Zippable(s, ps) == LET F == ZipFiles(s, ps) IN
    /\ \A p \in F : Exists(s, p)
    /\ \A p, q \in F : Last1(p) = Last1(q) => SameFile(s, p, q)
ZipMembers(s, ps) == {Last1(p) : p \in ZipFiles(s, ps)}
DoZip(s, op) == IF ~Zippable(s, op.paths) THEN s ELSE
    LET F == ZipFiles(s, op.paths)
        at(m) == Append(Append(op.to, op.arch), m)
        old(m) == s.fs[CHOOSE p \in F : Last1(p) = m]
        new == [q \in {at(m) : m \in ZipMembers(s, op.paths)} |->
                  IF old(Last1(q)).kind = "pgc" THEN old(Last1(q))
                  ELSE [ino |-> PStr(q), kind |-> "gb", gs |-> old(Last1(q)).gs, doc |-> <<>>, tok |-> Content(old(Last1(q)))]]
    IN [s EXCEPT !.fs = new @@ s.fs]

\* ---------------------------------------------------------------- the model
CONSTANTS Tops, MaxDepth, Scenario
VARIABLES s, hist
vars == <<s, hist>>
View == <<s, Len(hist)>>
Op == hist'[Len(hist')]

B1 == <<"t", "gb", "b1">>   B2 == <<"t", "gb", "b2">>   B3 == <<"u", "b1">>
Bank(i) == [ino |-> i, kind |-> "gb", gs |-> {"g1", "g2"}, doc |-> <<>>]
MPair(sb, tb, sg, tg, i) == [sb |-> sb, tb |-> tb, sg |-> sg, tg |-> tg, sk |-> "graph", tk |-> "graph",
                          st |-> "mem:" \o sg, tt |-> "mem:" \o tg, al |-> {<<"n1", "n2", "equals">>}, meta |-> "m0", id |-> i]
\* "h" names a hard link of b1
Hard == <<"t", "pg", "b1h">>
Init == /\ s = [fs |-> (B1 :> Bank("x1") @@ B2 :> Bank("x2") @@ B3 :> Bank("x3") @@ Hard :> Bank("x1")),
                ln |-> <<>>, next |-> 3,
                mem |-> ("c" :> [rels |-> <<"equals">>, meta |-> "none",
                                 pairs |-> <<MPair(B1, B2, "g1", "g2", 1), MPair(Hard, B1, "g2", "g2", 2)>>])
                     @@ ("d" :> [rels |-> <<"equals">>, meta |-> "m3", pairs |-> <<MPair(B3, B2, "g1", "g1", 3)>>])]
        /\ hist = <<[op |-> "start"]>>
\* documents on disk to start with (command line scripts)
InitDocs == [s EXCEPT !.fs = Upd(Upd(@, <<"t", "pg", "o1.pgc">>, DocFile(DocOf(s, s.mem["c"], <<"t", "pg">>, FALSE))),
                                 <<"u", "o2.v1.pgc">>, DocFile(DocOf(s, s.mem["d"], <<"u">>, TRUE)))]

Files == {<<"t", "pg", "o1">>, <<"t", "o2">>, <<"u", "o3">>}
Docs == {p \in DOMAIN s.fs : s.fs[p].kind = "pgc"}
WriteOps == {[op |-> "write", c |-> c, path |-> p, abs |-> a] : c \in DOMAIN s.mem, p \in Files, a \in BOOLEAN}
ReadOps == {[op |-> "read", c |-> "e", path |-> p, mode |-> m, relax |-> FALSE] : p \in Docs, m \in {"all", "sparse", "none"}}
MoveOps == {[op |-> "move", from |-> <<"t">>, to |-> <<"v", "t2">>]} \cup {[op |-> "move", from |-> <<"t", "pg">>, to |-> <<"w", "x">>]}
AddOps == {[op |-> "iadd", c |-> "c", d |-> d] : d \in {"d", "e"} \cap DOMAIN s.mem}
PurgeOps == {[op |-> "purge", c |-> c] : c \in DOMAIN s.mem}
\* purging gives each pair the first path of each file
PurgeMem(st, x) ==
    LET paths == Flat([j \in 1..Len(x.pairs) |-> <<x.pairs[j].sb, x.pairs[j].tb>>])
        first(p) == paths[CHOOSE k \in 1..Len(paths) : FileId(st, paths[k]) = FileId(st, p) /\
                                \A m \in 1..(k - 1) : FileId(st, paths[m]) # FileId(st, p)]
        ids == {x.pairs[j].id : j \in 1..Len(x.pairs)}
        P(y) == IF y.id \in ids THEN [y EXCEPT !.sb = first(@), !.tb = first(@)] ELSE y
    IN MapPairs(st, P)

Apply(st, op) ==
    CASE op.op = "write" -> [st EXCEPT !.fs = Upd(st.fs, op.path,
              [ino |-> "doc", kind |-> "pgc", gs |-> {}, doc |-> DocOf(st, st.mem[op.c], Front1(op.path), op.abs)])]
      [] op.op = "read" -> IF Faults(st, st.fs[op.path].doc, Front1(op.path), op.relax, op.mode) # {} THEN st
                           ELSE NewMem(st, op.c, ReadDoc(st, st.fs[op.path].doc, Front1(op.path), op.relax, op.mode))
      [] op.op = "move" -> Move(st, op.from, op.to)
      [] op.op = "iadd" -> SetMem(st, op.c, [st.mem[op.c] EXCEPT !.pairs = @ \o st.mem[op.d].pairs])
      [] op.op = "purge" -> PurgeMem(st, st.mem[op.c])
      [] op.op = "split" -> DoSplit(st, op)
      [] op.op = "join" -> DoJoin(st, op)
      [] op.op = "cp" -> DoCp(st, op)
      [] op.op = "chdir" -> DoChdir(st, op)
      [] op.op = "zip" -> DoZip(st, op)

Enabled == WriteOps \cup ReadOps \cup {o \in MoveOps : (\E p \in DOMAIN s.fs : IsPre(o.from, p)) /\ ~\E p \in DOMAIN s.fs : IsPre(o.to, p)} \cup AddOps \cup PurgeOps
Next == /\ Len(hist) <= MaxDepth
        /\ \E op \in Enabled : /\ (op.op = "iadd" => s.mem[op.d].rels = s.mem[op.c].rels /\ Len(s.mem[op.c].pairs) < 4)
                               /\ s' = Apply(s, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* the scripts
SplitOps == {[op |-> "split", path |-> p, parts |-> k, size |-> 0] : p \in Docs, k \in 1..3}
            \cup {[op |-> "split", path |-> p, parts |-> 2, size |-> k] : p \in Docs, k \in 1..2}
JoinOps == {[op |-> "join", paths |-> <<p, q>>, to |-> t] : p \in Docs, q \in Docs, t \in {<<"w", "j.pgc">>, <<"t", "pg", "j">>}}
CpOps == {[op |-> "cp", paths |-> <<p>>, target |-> t, isdir |-> FALSE, over |-> o] :
             p \in Docs, t \in Docs \cup {<<"t", "copy.pgc">>}, o \in BOOLEAN}
         \cup {[op |-> "cp", paths |-> <<p, q>>, target |-> t, isdir |-> TRUE, over |-> o] :
                 p \in Docs, q \in Docs, t \in {<<"u">>, <<"w">>}, o \in BOOLEAN}
ChdirOps == {[op |-> "chdir", paths |-> <<p>>, pa |-> x[1], pb |-> x[2], dry |-> d] :
               p \in Docs, x \in {<<"../gb", "../../gb2">>, <<"../", "">>, <<"%ROOT%/t", "%ROOT%/u">>, <<"b", "c/b">>, <<"%ROOT%/", "../">>},
               d \in BOOLEAN}
ZipOps == {[op |-> "zip", paths |-> <<p>>, to |-> <<"x">>, arch |-> "z"] : p \in Docs}
          \cup {[op |-> "zip", paths |-> <<p, q>>, to |-> <<"x">>, arch |-> "z.v2"] : p \in Docs, q \in Docs}
Small(st) == Cardinality({p \in DOMAIN st.fs : st.fs[p].kind = "pgc"}) <= 6
InitS == Init
\* documents appear in the first step
StartS == /\ Len(hist) = 1 /\ s' = InitDocs /\ hist' = Append(hist, [op |-> "docs"])
NextS == \/ StartS
         \/ /\ Len(hist) > 1 /\ Len(hist) <= MaxDepth + 1 /\ Small(s)
            /\ \E op \in SplitOps \cup JoinOps \cup CpOps \cup ChdirOps \cup ZipOps :
                  s' = Apply(s, op) /\ hist' = Append(hist, op)
SpecS == InitS /\ [][NextS]_vars
Emit == PrintT("PLAN " \o ToJson(Tail(hist')))

\* ---------------------------------------------------------------- properties
\* writing and reading back gives an equal corpus in every mode in which it can be read
RoundTrip == [][Op.op = "write" =>
    \A m \in {"all", "sparse", "none"} : LET d == s'.fs[Op.path].doc  dir == Front1(Op.path) IN
        /\ DocBad(s, s.mem[Op.c], dir, Op.abs, d) = {}
        /\ Faults(s', d, dir, FALSE, m) = {} => SameCorpus(s', ReadDoc(s', d, dir, FALSE, m), s.mem[Op.c])
        /\ Faults(s', d, dir, FALSE, "none") = {}]_vars
\* all loading modes agree
ModesAgree == \A p \in Docs : LET d == s.fs[p].doc  dir == Front1(p)  R(m) == ReadDoc(s, d, dir, FALSE, m) IN
    /\ Faults(s, d, dir, FALSE, "all") = Faults(s, d, dir, FALSE, "sparse")
    /\ Faults(s, d, dir, FALSE, "all") = {} => /\ R("all") = R("sparse")
                                               /\ SameCorpus(s, R("all"), R("none"))
\* moving a tree that holds a document with relative paths and all its graphbanks
Moves == [][Op.op = "move" =>
    \A p \in Docs : (IsPre(Op.from, p) /\
                     \A j \in 1..Len(s.fs[p].doc.files) : ~s.fs[p].doc.files[j].abs /\
                         IsPre(Op.from, Lead(s, Front1(p), s.fs[p].doc.files[j], FALSE)))
      => LET q == MvPath(p, Op.from, Op.to)
             old == ReadDoc(s, s.fs[p].doc, Front1(p), FALSE, "none")
             new == ReadDoc(s', s'.fs[q].doc, Front1(q), FALSE, "none") IN
         /\ Len(old.pairs) = Len(new.pairs)
         /\ \A j \in 1..Len(old.pairs) : /\ new.pairs[j].sb = MvPath(old.pairs[j].sb, Op.from, Op.to)
                                         /\ new.pairs[j].tb = MvPath(old.pairs[j].tb, Op.from, Op.to)
                                         /\ FileId(s', new.pairs[j].sb) = FileId(s, old.pairs[j].sb) \/ ~Exists(s, old.pairs[j].sb)]_vars
PurgeKeeps == [][Op.op = "purge" => \A c \in DOMAIN s.mem : SameCorpus(s, s'.mem[c], s.mem[c])]_vars
\* one graphbank per file in use after purging
PurgeUnique == [][Op.op = "purge" => LET q == s'.mem[Op.c].pairs
                                         B == UNION {{q[j].sb, q[j].tb} : j \in 1..Len(q)} IN
                  \A x, y \in B : FileId(s', x) = FileId(s', y) => x = y]_vars
\* the scripts keep what they process
NoLoss == [][Op.op = "split" =>
    LET c == Stubs(s, Op.path)  e == Ends(Len(c.pairs), Op.parts, Op.size)
        names == [k \in 1..Len(e) |-> PartPath(Op.path, IF k = 1 THEN 1 ELSE e[k - 1] + 1, e[k])]
    IN /\ EndsOk(e, Len(c.pairs), Op.parts, Op.size)
       /\ \A i, j \in 1..Len(names) : names[i] = names[j] => i = j
       /\ c.pairs # <<>> => SameCorpus(s', Joined(s', names), c)]_vars
CopySame == [][Op.op = "cp" /\ Len(Op.paths) = 1 /\ CpDone(s, Op, 1) =>
    SameCorpus(s', Stubs(s', CpTarget(Op, 1)), Stubs(s, Op.paths[1]))]_vars
OthersKept == [][Op.op \in {"split", "join", "cp", "zip"} =>
    \A p \in DOMAIN s.fs : s'.fs[p] = s.fs[p] \/
        (Op.op = "split") \/ (Op.op = "join" /\ p = Op.to) \/ (Op.op = "cp" /\ \E k \in 1..Len(Op.paths) : p = CpTarget(Op, k))
        \/ (Op.op = "zip" /\ IsPre(Op.to, p))]_vars
ChdirBack == [][Op.op = "chdir" =>
    LET d == s.fs[Op.paths[1]].doc IN
    /\ FromTxt(Txt([abs |-> TRUE, path |-> <<"a", "b">>])) = [abs |-> TRUE, path |-> <<"a", "b">>]
    /\ (Op.pb # "" /\ Op.pa # "" /\ \A j \in 1..Len(d.files) : ~Starts(Txt(d.files[j]), Op.pb))
       => ChDoc(ChDoc(d, Op.pa, Op.pb), Op.pb, Op.pa) = d
    /\ s'.fs[Op.paths[1]].doc.pairs = d.pairs]_vars
\* what is unpacked can be read where it is and shows the same graphs
Unpacked == [][Op.op = "zip" /\ Zippable(s, Op.paths) =>
    \A k \in 1..Len(Op.paths) :
      LET p == Op.paths[k]
          q == Append(Append(Op.to, Op.arch), Last1(p))
          d == s.fs[p].doc IN
      (Faults(s, d, Front1(p), FALSE, "all") = {} /\ ~\E j \in 1..Len(d.files) :
            Exists(s', Lead(s', Front1(q), d.files[j], FALSE)) /\ Lead(s', Front1(q), d.files[j], FALSE) # Lead(s, Front1(p), d.files[j], FALSE))
      => /\ Faults(s', d, Front1(q), TRUE, "all") = {}
         /\ LET a == ReadDoc(s, d, Front1(p), FALSE, "all")  b == ReadDoc(s', d, Front1(q), TRUE, "all") IN
            \A j \in 1..Len(a.pairs) : a.pairs[j].st = b.pairs[j].st /\ a.pairs[j].tt = b.pairs[j].tt
                                      /\ a.pairs[j].al = b.pairs[j].al]_vars
PathLaws == \A f \in DOMAIN s.fs, p \in DOMAIN s.fs : Resolve(<<>>, Front1(p), RelPath(f, Front1(p))) = f
=============================================================================
