----------------------------- MODULE TableTrace -----------------------------
(* Judges recorded histories of statistics tables against Table!Apply, and the
   tables of a corpus segment (daeso.stats.corpus) against their parts. *)
EXTENDS TraceBase

M == INSTANCE Table WITH Objs <- {}, Vals <- {}, MaxRows <- 0, MaxLen <- 0, heap <- st, files <- st, hist <- ti

TrStart(ev) == [h |-> <<>>, f |-> <<>>]
If(c, n) == IF c THEN {} ELSE {n}
Near(c, ty, a, b) == IF ty = "string" \/ ty = "count" THEN a = b ELSE M!Near(a, b, 1)

\* observed table: [cls, cols |-> <<<<label, type>>...>>, rows, ov, empty]
ObsBad(t, ob) ==
    IF ob.cols # M!Columns(t.cls) THEN {"columns"}
    ELSE IF Len(ob.rows) # Len(t.rows) THEN {"number of rows"} ELSE
    If(\A k \in 1..Len(t.rows), c \in M!Names(t.cls) : Near(c, M!Type(t.cls, c), ob.rows[k][c], t.rows[k][c]), "cells")
    \cup If(\A c \in M!Names(t.cls) : M!Near(ob.ov[c], t.ov[c], 1), "overall figures")
    \cup If(ob.empty = (t.rows = <<>>), "emptiness")
\* the written table: header, rows and overall line
TextBad(t, tx) ==
    If(tx.cols = [k \in 1..Len(M!Columns(t.cls)) |-> M!Columns(t.cls)[k][1]], "columns written")
    \cup (IF Len(tx.rows) # Len(t.rows) THEN {"rows written"} ELSE
          If(\A k \in 1..Len(t.rows), c \in M!Names(t.cls) : Near(c, M!Type(t.cls, c), tx.rows[k][c], t.rows[k][c]), "cells written"))
    \cup If(\A c \in M!Names(t.cls) : M!Near(tx.ov[c], t.ov[c], 1), "overall figures written")
    \cup If(tx.legenda, "legenda")

\* ---- a corpus segment: tables of the sub-segments, of the annotations and of everything
RowSeq(ts) == FlattenSeq([k \in 1..Len(ts) |-> ts[k].rows])
Merged(cls, rows) == M!Summarize([M!New(cls, 0) EXCEPT !.rows = rows])
SegBad(tab, cls, rows) ==
    IF rows = <<>> THEN {} ELSE
    If(tab.rows = rows, "rows of a merged table")
    \cup If(tab.rows = rows => \A c \in M!Names(cls) : M!Near(tab.ov[c], Merged(cls, rows).ov[c], 1), "overall figures of a merged table")
SegAll(ev, cls, f) ==
    LET n == Len(ev.seg)
        leaf(k) == [j \in 1..Len(ev.seg[k].subs) |-> [rows |-> ev.seg[k].subs[j][f].rows]] IN
    UNION {SegBad(ev.seg[k][f], cls, RowSeq(leaf(k))) : k \in 1..n}
    \cup SegBad(ev.all[f], cls, FlattenSeq([k \in 1..n |-> RowSeq(leaf(k))]))
    \cup UNION {UNION {SegBad(ev.seg[k].subs[j][f], cls, ev.seg[k].subs[j][f].rows) : j \in 1..Len(ev.seg[k].subs)} : k \in 1..n}
\* every corpus is counted once, in its own sub-segment; when the report is made again for
\* some targets only, the other sub-segments keep their previous table
Targeted(ev, a, s) == \E k \in 1..Len(ev.again) : ev.again[k] \in {"all", a, s, a \o "." \o s}
\* A corpus is <<name, pairs, pairs with unaligned roots>>; its pairs align one graph (of two words and a
\* punctuation) with itself.  Pairs with unaligned roots count in the segment without annotation ("na") only.
In(a, w) == IF a = "na" THEN w[2] ELSE w[2] - w[3]
LeafPgc(a, w) == [CORPUS |-> w[1], CGP |-> In(a, w), CGPFU |-> w[2] - w[3], CGPUR |-> IF a = "na" THEN w[3] ELSE 0,
                  CNP |-> In(a, w), CEQ |-> In(a, w)]
LeafGb(a, w) == LET one == IF In(a, w) > 0 THEN 1 ELSE 0  many == IF In(a, w) > 0 THEN 1 ELSE 0 IN
    [CG |-> one, CGA |-> one, CGMA |-> many, CGSA |-> 0, CGUR |-> IF a = "na" /\ w[3] > 0 THEN 1 ELSE 0, CT |-> 2 * one, CN |-> 2 * one]
Part(row, f) == \A c \in DOMAIN f : row[c] = f[c]
Leaves(ev) == UNION {UNION {
    LET a == ev.seg[k].name
        s == ev.seg[k].subs[j]
        want == s.want \o (IF "again" \in DOMAIN ev /\ Targeted(ev, a, s.name) THEN s.extra ELSE <<>>) IN
    If(Len(s.pgc.rows) = Len(want)
       /\ \A w \in 1..Len(want) : \E r \in 1..Len(s.pgc.rows) : Part(s.pgc.rows[r], LeafPgc(a, want[w])), "corpora of a sub-segment")
    \cup If(Len(s.gb.rows) = Len(want)
       /\ \A w \in 1..Len(want) : \E r \in 1..Len(s.gb.rows) :
             s.gb.rows[r].BANK = want[w][1] \o ".graphml" /\ Part(s.gb.rows[r], LeafGb(a, want[w])), "graphbanks of a sub-segment")
    : j \in 1..Len(ev.seg[k].subs)} : k \in 1..Len(ev.seg)}

TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
      IF ev.op = "segment" THEN SegAll(ev, "pgc", "pgc") \cup SegAll(ev, "gb", "gb") \cup Leaves(ev) \cup If(ev.cwd, "current directory")
      ELSE
      LET r == M!Apply(s.h, s.f, ev) IN
      UNION {ObsBad(r.heap[ev.obs[k].o], ev.obs[k]) : k \in 1..Len(ev.obs)}
      \cup (IF "text" \in DOMAIN ev THEN TextBad(r.heap[ev.o], ev.text) ELSE {}))
TrAfter(s, ev) == IF ev.op = "segment" THEN s ELSE LET r == M!Apply(s.h, s.f, ev) IN [h |-> r.heap, f |-> r.files]
=============================================================================
