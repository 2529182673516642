----------------------------- MODULE StoreTrace -----------------------------
EXTENDS TraceBase
M == INSTANCE Store WITH Tops <- {}, MaxDepth <- 0, Scenario <- "", s <- st, hist <- ti
TrStart(ev) == [fs |-> <<>>, ln |-> <<>>, mem |-> <<>>, next |-> 0]
Upd(f, k, v) == M!Upd(f, k, v)
Tri(q) == {<<q[k][1], q[k][2], q[k][3]>> : k \in 1..Len(q)}
File(i, k, gs, d) == [ino |-> i, kind |-> k, gs |-> gs, doc |-> d]

\* JSON values as specification values
PairIn(x) == [sb |-> x.sb, tb |-> x.tb, sg |-> x.sg, tg |-> x.tg, sk |-> x.sk, tk |-> x.tk,
              st |-> x.st, tt |-> x.tt, al |-> Tri(x.al), meta |-> x.meta, id |-> 0]
MemIn(x) == [rels |-> x.rels, meta |-> x.meta, pairs |-> [j \in 1..Len(x.pairs) |-> PairIn(x.pairs[j])]]
DocIn(d) == [rels |-> d.rels, meta |-> d.meta,
             files |-> [j \in 1..Len(d.files) |-> [id |-> d.files[j].id, abs |-> d.files[j].abs, path |-> d.files[j].path]],
             pairs |-> [j \in 1..Len(d.pairs) |-> [fb |-> d.pairs[j].fb, tb |-> d.pairs[j].tb, sg |-> d.pairs[j].sg,
                        tg |-> d.pairs[j].tg, al |-> Tri(d.pairs[j].al), meta |-> d.pairs[j].meta]]]

\* the specified next state (for "write" the document observed is adopted, for "purge" the observed paths)
Fault(s, ev) ==
    IF ev.op = "read" THEN M!Faults(s, s.fs[ev.path].doc, ev.dir, ev.relax, ev.mode)
    ELSE {}
RECURSIVE Adopt(_, _, _)
Adopt(s, w, k) == IF k > Len(w) THEN s
                  ELSE Adopt([s EXCEPT !.fs = Upd(s.fs, w[k].path, File("doc", "pgc", {}, DocIn(w[k].doc)))], w, k + 1)
After1(s, ev) ==
    CASE ev.op = "bank" -> [s EXCEPT !.fs = Upd(s.fs, ev.path, LET f == File(ev.ino, "gb", ToSet(ev.gs), <<>>) IN
                                                    IF "tok" \in DOMAIN ev THEN [tok |-> ev.tok] @@ f ELSE f)]
      [] ev.op = "junk" -> [s EXCEPT !.fs = Upd(s.fs, ev.path, File("junk", "junk", {}, <<>>))]
      [] ev.op = "link" -> [s EXCEPT !.fs = Upd(s.fs, ev.path, s.fs[M!Real(s.ln, ev.from)])]
      [] ev.op = "symlink" -> [s EXCEPT !.ln = Upd(s.ln, ev.path, ev.to)]
      [] ev.op = "rm" -> [s EXCEPT !.fs = M!Drop(s.fs, ev.path)]
      [] ev.op = "move" -> M!Move(s, ev.from, ev.to)
      [] ev.op = "doc" -> [s EXCEPT !.fs = Upd(s.fs, ev.path, [warn |-> Len(ev.junk) + ev.oldfmt] @@ File("doc", "pgc", {}, DocIn(ev.doc)))]
      [] ev.op = "mk" -> M!NewMem(s, ev.c, MemIn(ev.cor))
      [] ev.op = "write" -> IF ev.exc # "" THEN s
                            ELSE [s EXCEPT !.fs = Upd(s.fs, ev.path, File("doc", "pgc", {}, DocIn(ev.doc)))]
      [] ev.op = "read" -> IF ev.exc # "" THEN s
                           ELSE M!NewMem(s, ev.c, M!ReadDoc(s, s.fs[ev.path].doc, ev.dir, ev.relax, ev.mode))
      [] ev.op = "iadd" -> M!SetMem(s, ev.c, [s.mem[ev.c] EXCEPT !.pairs = @ \o s.mem[ev.d].pairs])
      [] ev.op = "dcopy" -> M!DeepCopy(s, ev.c, s.mem[ev.d])
      [] ev.op = "slice" -> M!SetMem(s, ev.c, [s.mem[ev.d] EXCEPT !.pairs = SubSeq(@, ev.i + 1, ev.j)])
      [] ev.op = "purge" -> LET ob == CHOOSE o \in ToSet(ev.obs) : o.name = ev.c
                                q == s.mem[ev.c].pairs
                                who == IF "i" \in DOMAIN ev THEN {ev.i} ELSE 1..Len(q)
                                P(y) == IF \E j \in who : q[j].id = y.id
                                        THEN LET j == CHOOSE j \in who : q[j].id = y.id IN
                                             [y EXCEPT !.sb = ob.pairs[j].sb, !.tb = ob.pairs[j].tb]
                                        ELSE y
                            IN M!MapPairs(s, P)
      [] ev.op = "align" -> LET P(y) == IF y.id # s.mem[ev.c].pairs[ev.i].id THEN y ELSE
                               [y EXCEPT !.al = {x \in @ : x[1] # ev.s /\ x[2] # ev.t} \cup {<<ev.s, ev.t, ev.r>>}]
                            IN M!MapPairs(s, P)
      [] ev.op = "pmeta" -> LET P(y) == IF y.id # s.mem[ev.c].pairs[ev.i].id THEN y ELSE [y EXCEPT !.meta = ev.tok]
                            IN M!MapPairs(s, P)
      [] ev.op = "cmeta" -> [s EXCEPT !.mem[ev.c].meta = ev.tok]
      [] ev.op = "annot" -> [s EXCEPT !.mem[ev.c].meta = M!SetAnnot(@, ev.who, ev.app)]
      [] ev.op = "zip" -> M!DoZip(s, ev)
      [] ev.op \in {"split", "join", "cp", "chdir"} -> Adopt(s, ev.wrote, 1)
      [] ev.op \in {"look", "bigsplit"} -> s

RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)
PairBad(x, ob) ==
    (IF <<ob.sb, ob.tb>> = <<x.sb, x.tb>> THEN {} ELSE {"graphbank files of a pair"})
    \cup (IF <<ob.sg, ob.tg>> = <<x.sg, x.tg>> THEN {} ELSE {"graph ids of a pair"})
    \cup (IF <<ob.sk, ob.tk>> = <<x.sk, x.tk>> THEN {} ELSE {"graphs loaded or not"})
    \cup (IF <<ob.st, ob.tt>> = <<x.st, x.tt>> THEN {} ELSE {"the real graphs of the pair"})
    \cup (IF Tri(ob.al) = x.al /\ Len(ob.al) = Cardinality(x.al) THEN {} ELSE {"alignments of a pair"})
    \cup (IF ob.meta = x.meta THEN {} ELSE {"meta-data of a pair"})
MemBad(x, ob) ==
    (IF ob.rels = x.rels THEN {} ELSE {"relations"})
    \cup (IF ob.meta = x.meta THEN {} ELSE {"corpus meta-data"})
    \cup (IF ob.ann = M!Annot(x.meta) THEN {} ELSE {"annotator"})
    \cup (IF Len(ob.pairs) # Len(x.pairs) THEN {"number of pairs"}
          ELSE UNION {PairBad(x.pairs[j], ob.pairs[j]) : j \in 1..Len(x.pairs)})

\* which corpora share pair objects
Shared(t, obs) ==
    LET seen == UNION {{<<t.mem[obs[k].name].pairs[j].id, obs[k].pairs[j].po>> :
                          j \in 1..(IF Len(obs[k].pairs) <= Len(t.mem[obs[k].name].pairs) THEN Len(obs[k].pairs)
                                     ELSE Len(t.mem[obs[k].name].pairs))} : k \in 1..Len(obs)}
    IN IF \A a, b \in seen : (a[1] = b[1]) <=> (a[2] = b[2]) THEN {} ELSE {"pairs shared or fresh as specified"}

\* after purging: same file <=> same graphbank object (for the pairs purged)
PurgeBad(s, ev) ==
    LET ob == CHOOSE o \in ToSet(ev.obs) : o.name = ev.c
        x == s.mem[ev.c]
        who == IF "i" \in DOMAIN ev THEN {ev.i} ELSE 1..Len(x.pairs)
        occ == {<<FS, FO>> \in {<<M!FileId(s, x.pairs[j].sb), ob.pairs[j].sbo>> : j \in who}
                              \cup {<<M!FileId(s, x.pairs[j].tb), ob.pairs[j].tbo>> : j \in who} : TRUE}
    IN IF Len(ob.pairs) # Len(x.pairs) THEN {"number of pairs"} ELSE
       (IF \A a, b \in occ : (a[1] = b[1]) <=> (a[2] = b[2]) THEN {} ELSE {"one graphbank object per file after purging"})
       \cup (IF \A j \in 1..Len(x.pairs) :
                   /\ M!FileId(s, ob.pairs[j].sb) = M!FileId(s, x.pairs[j].sb)
                   /\ M!FileId(s, ob.pairs[j].tb) = M!FileId(s, x.pairs[j].tb)
                   /\ (\A w \in who : x.pairs[w].id # x.pairs[j].id) => <<ob.pairs[j].sb, ob.pairs[j].tb>> = <<x.pairs[j].sb, x.pairs[j].tb>>
             THEN {} ELSE {"purging keeps each pair's graphbank files"})

\* ---- command line scripts
Front1(p) == M!Front1(p)
Paths(ev) == {ev.wrote[k].path : k \in 1..Len(ev.wrote)}
DocAt(ev, p) == DocIn(ev.wrote[CHOOSE k \in 1..Len(ev.wrote) : ev.wrote[k].path = p].doc)
Refused(ev, ok) == IF ok THEN (IF ev.code = 0 THEN {} ELSE {"the script failed"})
                   ELSE (IF ev.code # 0 THEN {} ELSE {"the script accepted what it cannot process"})
\* all graphbanks are in the graphml format, and said to be
FmtBad(d) == IF \A j \in 1..Len(d.files) : d.files[j].fmt = "graphml" THEN {} ELSE {"the format of a graphbank is written"}
Wrote(ev, ps) == (IF Paths(ev) = ps THEN {} ELSE {"exactly the documents asked for are written"})
                 \cup (IF ev.op = "chdir" THEN {} ELSE UNION {FmtBad(ev.wrote[k].doc) : k \in 1..Len(ev.wrote)})
Readable(s, p) == M!IsDoc(s, p) /\ M!Faults(s, s.fs[p].doc, Front1(p), FALSE, "sparse") = {}
SplitBad(s, ev) ==
    LET c == M!Stubs(s, ev.path)
        n == Len(ev.wrote)
        len == [k \in 1..n |-> Len(ev.wrote[k].doc.pairs)]
        e == TLCEval([k \in 1..n |-> SumTo(len, k)])
        ok == Readable(s, ev.path) IN
    Refused(ev, ok) \cup
    IF ~ok THEN Wrote(ev, {}) ELSE IF ~M!EndsOk(e, Len(c.pairs), ev.parts, ev.size) THEN {"as many parts as asked for, of equal size, that together hold all pairs"}
    ELSE UNION {LET i == e[k] - len[k] + 1  p == ev.wrote[k].path IN
           (IF Front1(p) = Front1(ev.path) /\ \E w \in 4..6 : M!Last1(p) = M!PartName(M!Last1(ev.path), i, e[k], w)
            THEN {} ELSE {"a part is named after the positions of its pairs"})
           \cup M!DocBad(s, M!Part(c, i, e[k]), Front1(p), FALSE, DocIn(ev.wrote[k].doc)) : k \in 1..n}
\* a corpus of n pairs, too large to tell apart pair by pair: the parts in the order of their names
BigBad(ev) == Refused(ev, TRUE)
    \cup (IF M!EndsOk(ev.ends, ev.n, ev.parts, ev.size) THEN {} ELSE {"as many parts as asked for, of equal size, that together hold all pairs"})
    \cup (IF ev.tidy THEN {} ELSE {"the parts of a corpus sort in the order of its pairs"})
JoinBad(s, ev) ==
    LET ok == M!Joinable(s, ev.paths) /\ \A k \in 1..Len(ev.paths) : Readable(s, ev.paths[k]) IN
    Refused(ev, ok) \cup Wrote(ev, IF ok THEN {ev.to} ELSE {})
    \cup (IF ev.decl THEN {} ELSE {"a document or nothing is printed"})
    \cup (IF ok /\ Paths(ev) = {ev.to} THEN M!DocBad(s, M!Joined(s, ev.paths), Front1(ev.to), FALSE, DocAt(ev, ev.to)) ELSE {})
CpBad(s, ev) ==
    LET t == M!DoCp(s, ev)
        \* the state before each source is dealt with
        at(k) == M!CpFrom(s, [ev EXCEPT !.paths = SubSeq(@, 1, k - 1)], 1)
        ps == IF ~ev.isdir /\ Len(ev.paths) > 1 THEN {}
              ELSE {M!CpTarget(ev, k) : k \in {j \in 1..Len(ev.paths) : M!CpDone(at(j), ev, j)}} IN
    Refused(ev, ev.isdir \/ Len(ev.paths) = 1) \cup Wrote(ev, ps)
    \cup UNION {M!DocBad(s, M!Stubs(t, p), Front1(p), FALSE, DocAt(ev, p)) : p \in ps \cap Paths(ev)}
ChdirBad(s, ev) ==
    LET ps == IF ev.dry THEN {} ELSE ToSet(ev.paths) IN
    Refused(ev, TRUE) \cup Wrote(ev, ps)
    \cup UNION {LET d == DocAt(ev, p)  x == M!ChDoc(s.fs[p].doc, ev.pa, ev.pb) IN
            (IF d.files = x.files THEN {} ELSE {"graphbank paths change prefix as asked"})
            \cup (IF [d EXCEPT !.files = <<>>] = [x EXCEPT !.files = <<>>] THEN {} ELSE {"only graphbank paths change"})
            : p \in ps \cap Paths(ev)}
ZipBad(s, ev) ==
    LET ok == M!Zippable(s, ev.paths)
        M1 == {<<ev.arch, m>> : m \in M!ZipMembers(s, ev.paths)} IN
    Refused(ev, ok) \cup Wrote(ev, {})
    \cup (IF ok /\ ~(ToSet(ev.members) = M1 /\ Len(ev.members) = Cardinality(M1)) THEN {"the archive holds the corpora and their graphbanks"} ELSE {})
ScriptBad(s, ev) ==
    (CASE ev.op = "split" -> SplitBad(s, ev) [] ev.op = "join" -> JoinBad(s, ev) [] ev.op = "cp" -> CpBad(s, ev)
       [] ev.op = "chdir" -> ChdirBad(s, ev) [] ev.op = "zip" -> ZipBad(s, ev))
    \cup (IF ev.other = <<>> THEN {} ELSE {"other files are left alone"})
    \cup (IF ev.gone = <<>> THEN {} ELSE {"no file disappears"})

TrFailing(s, ev) ==
    LET f == Fault(s, ev) IN
    IF f # {} THEN (IF ev.exc = "DaesoError" THEN {} ELSE {"reading with " \o SetToSeq(f)[1] \o " fails with the framework's error"})
    ELSE IF ev.op = "bigsplit" THEN
        IF ev.exc # "" THEN {"harness: " \o ev.exc} ELSE BigBad(ev)
    ELSE IF ev.op \in {"split", "join", "cp", "chdir", "zip"} THEN
        IF ev.exc # "" THEN {"harness: " \o ev.exc} ELSE ScriptBad(s, ev)
    ELSE IF ev.exc # "" THEN {"operation failed: " \o ev.exc}
    ELSE LET pb == IF ev.op = "purge" THEN PurgeBad(s, ev) ELSE {} IN
         IF "number of pairs" \in pb THEN pb ELSE
         pb \cup
         (IF ev.op = "read" THEN
             LET d == s.fs[ev.path] IN
             IF ev.warned = (IF "warn" \in DOMAIN d THEN d.warn ELSE 0) THEN {} ELSE {"warned of every unknown element"} ELSE {}) \cup
         (IF ev.op = "write" THEN M!DocBad(s, s.mem[ev.c], ev.dir, ev.abs, DocIn(ev.doc)) \cup FmtBad(ev.doc) ELSE {})
         \cup (IF "obs" \in DOMAIN ev THEN
                 LET t == After1(s, ev) IN
                 UNION {MemBad(t.mem[ev.obs[k].name], ev.obs[k]) : k \in 1..Len(ev.obs)} \cup Shared(t, ev.obs) ELSE {})
         \cup (IF "eqs" \in DOMAIN ev /\ (LET t == After1(s, ev) IN \E k \in 1..Len(ev.eqs) :
                     LET e == M!SameCorpus(t, t.mem[ev.eqs[k].c], t.mem[ev.eqs[k].d]) IN
                     ~(ev.eqs[k].eq = e /\ ev.eqs[k].ne = ~e))
               THEN {"equality of corpora"} ELSE {})
TrAfter(s, ev) == After1(s, ev)
=============================================================================
