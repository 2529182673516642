--------------------------- MODULE AlignEvalTrace ---------------------------
(* Judges recorded histories of evaluation objects against AlignEval.tla. *)
EXTENDS TraceBase, AlignEvalObs

TrStart(ev) == [rels |-> ev.params.rels, rows |-> <<>>]

TrFailing(s, ev) ==
    LET t == IF ev.op = "add" THEN AddTo(s, ev) ELSE s IN
    If(ev.exc = "", "operation failed")
    \cup (IF "tabs" \in DOMAIN ev
          THEN UNION {TableBad(ev.tabs[k], t.rows) : k \in 1..Len(ev.tabs)}
               \cup If(ToSet(ev.keys) = ToSet(t.rels) \cup {M!AnyRel}, "relations evaluated")
               \cup If(ev.names = [k \in 1..Len(t.rows) |-> t.rows[k].name], "names of the parts") ELSE {})
    \cup (IF "overall" \in DOMAIN ev THEN OverallBad(t, ev.overall) ELSE {})
    \cup (IF "report" \in DOMAIN ev THEN ReportBad(t, ev.report) ELSE {})
    \cup (IF "ratio" \in DOMAIN ev THEN RatioBad(t, ev.order, ev.ratio) ELSE {})
    \cup (IF "same" \in DOMAIN ev THEN If(ev.same, "evaluated corpora changed") ELSE {})
TrAfter(s, ev) == IF ev.op = "add" THEN AddTo(s, ev) ELSE s
=============================================================================
