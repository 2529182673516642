--------------------------- MODULE CreationTrace ---------------------------
(* Judges recorded creations of corpora and extractions of phrases against Creation. *)
EXTENDS TraceBase

M == INSTANCE Creation WITH MaxLen <- 0, Words1 <- {}, Small <- TRUE, s <- st, hist <- ti
If(c, n) == IF c THEN {} ELSE {n}

TrStart(ev) == [docs |-> ev.params.docs, banks |-> ev.params.banks, cor |-> <<>>]

\* the corpora seen on disk: file -> corpus
Written(s, ev, t) ==
    If({ev.out[k].name : k \in 1..Len(ev.out)} = DOMAIN t.cor, "exactly the corpora asked for are written")
    \cup UNION {IF ev.out[k].name \notin DOMAIN t.cor THEN {} ELSE
          LET o == ev.out[k]  x == t.cor[o.name] IN
          If(ToSet(o.rels) = ToSet(x.rels) /\ Len(o.rels) = Len(x.rels), "relations of the corpus")
          \cup (IF Len(o.pairs) # Len(x.pairs) THEN {"the pairs selected"} ELSE
                If(\A j \in 1..Len(x.pairs) : o.pairs[j].sg = x.pairs[j].sg /\ o.pairs[j].tg = x.pairs[j].tg, "graphs of the pairs")
                \cup If(\A j \in 1..Len(x.pairs) : o.pairs[j].sb = x.pairs[j].sb /\ o.pairs[j].tb = x.pairs[j].tb, "graphbanks of the pairs")
                \cup If(\A j \in 1..Len(x.pairs) : o.pairs[j].al = x.pairs[j].al, "a new corpus has no alignments"))
          : k \in 1..Len(ev.out)}
TrFailing(s, ev) ==
    CASE ev.op = "create" ->
           LET ok == M!Matching(ev) /\ M!Done(s, ev) = Len(ev.docs) IN
           If((ev.code = 0) = ok, IF ok THEN "creating a corpus failed" ELSE "a broken link or missing graph is refused")
           \cup Written(s, ev, M!Apply(s, ev))
           \cup If(ev.same, "texts and graphbanks are left alone")
      [] ev.op = "extract" ->
           If(ev.code = 0, "extracting phrases failed")
           \cup If(M!LinesOk(M!Extracted(s, ev), ev.lines), "one line for each alignment, with the phrases of its nodes")
           \cup If(ev.same, "texts and graphbanks are left alone")
      [] OTHER -> {}
TrAfter(s, ev) == M!Apply(s, ev)
=============================================================================
