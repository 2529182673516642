--------------------------- MODULE AgreementTrace ---------------------------
(* Judges recorded agreement runs against Agreement.tla. *)
EXTENDS TraceBase, AlignEvalObs

G == INSTANCE Agreement WITH NodePairs <- {}, Rels <- {}, NAnn <- 0, NonTerms <- {}, ann <- <<>>, hist <- <<>>

TrStart(ev) == 0

\* the annotations compared: all alignments, or those between words
Ann(ev) == [k \in 1..Len(ev.C) |->
              [p \in 1..Len(ev.C[k]) |->
                 IF ev.words = 1 THEN G!Words(Triples(ev.C[k][p]), ToSet(ev.nt[p][1]), ToSet(ev.nt[p][2]))
                 ELSE Triples(ev.C[k][p])]]
Names(ev) == IF ev.names = <<>> THEN [k \in 1..Len(ev.C) |-> "A" \o ToString(k)] ELSE ev.names
Label(n) == "('" \o n[1] \o "', '" \o n[2] \o "')"

Rels == <<"equals", "restates", "specifies", "generalizes", "intersects">>
Pos(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x

\* t: [rel, m, labels, cells |-> <<<<true, pred, value>>...>>, mean, sd |-> <<<<label, value>>...>>, om, osd]
TabFig(C, nm, t, tol) ==
    LET n == Len(nm) IN
    If(ToSet(t.labels) = ToSet(nm), "annotators of a table")
    \cup If({<<t.cells[k][1], t.cells[k][2]>> : k \in 1..Len(t.cells)} =
            {<<nm[i], nm[j]>> : <<i, j>> \in {p \in (1..n) \X (1..n) : p[1] # p[2]}}, "cells of a table")
    \cup If(\A k \in 1..Len(t.cells) :
              Near(t.cells[k][3], G!Cell(C, t.rel, t.m, Pos(nm, t.cells[k][1]), Pos(nm, t.cells[k][2])), tol), "agreement of two annotators")
    \cup If(Len(t.mean) = n /\ \A k \in 1..Len(t.mean) : Near(t.mean[k][2], G!ColMean(C, t.rel, t.m, Pos(nm, t.mean[k][1])), tol + 1), "average per annotator")
    \cup If(Near(t.om, G!Overall(C, t.rel, t.m), tol + 1), "overall average")
    \cup If(Len(t.sd) = n /\ \A k \in 1..Len(t.sd) :
              Near(t.sd[k][2] * t.sd[k][2], G!ColVar(C, t.rel, t.m, Pos(nm, t.sd[k][1])) * M!U, 4 * t.sd[k][2] + 8 * M!U), "deviation per annotator")
    \cup If(Near(t.osd * t.osd, G!OverallVar(C, t.rel, t.m) * M!U, 4 * t.osd + 8 * M!U), "overall deviation")

AllTabs == {<<r, m>> : r \in ToSet(Rels) \cup {M!AnyRel}, m \in M!Measures}

TrFailing(s, ev) ==
    LET C == Ann(ev)
        nm == Names(ev)
        R == G!Rows(nm, C)
        st2 == [rels |-> Rels, rows |-> [k \in 1..Len(R) |-> [R[k] EXCEPT !.name = Label(R[k].name)]]] IN
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
        (IF "names" \in DOMAIN ev /\ "rownames" \in DOMAIN ev
         THEN If([k \in 1..Len(ev.rownames) |-> <<ev.rownames[k][1], ev.rownames[k][2]>>] = [k \in 1..Len(R) |-> R[k].name], "annotator pairs compared") ELSE {})
        \cup (IF "tabs" \in DOMAIN ev THEN UNION {TableBad(ev.tabs[k], st2.rows) : k \in 1..Len(ev.tabs)} ELSE {})
        \cup (IF "overall" \in DOMAIN ev THEN OverallBad(st2, ev.overall) ELSE {})
        \cup (IF "report" \in DOMAIN ev THEN ReportBad(st2, ev.report) ELSE {})
        \cup (IF "am" \in DOMAIN ev
              THEN If({<<ev.am[k].rel, ev.am[k].m>> : k \in 1..Len(ev.am)} = AllTabs /\ Len(ev.am) = Cardinality(AllTabs), "tables computed")
                   \cup UNION {TabFig(C, nm, ev.am[k], 1) : k \in 1..Len(ev.am)} ELSE {})
        \cup (IF "printed" \in DOMAIN ev
              THEN If({<<ev.printed[k].rel, ev.printed[k].m>> : k \in 1..Len(ev.printed)} = AllTabs /\ Len(ev.printed) = Cardinality(AllTabs), "tables printed")
                   \cup UNION {TabFig(C, nm, ev.printed[k], 1) : k \in 1..Len(ev.printed)} ELSE {})
        \cup (IF "fractions" \in DOMAIN ev
              THEN If({<<ev.fractions[k].rel, ev.fractions[k].m>> : k \in 1..Len(ev.fractions)} = AllTabs /\ Len(ev.fractions) = Cardinality(AllTabs), "tables of fractions")
                   \cup UNION {TabFig(C, nm, ev.fractions[k], 1) : k \in 1..Len(ev.fractions)} ELSE {})
        \cup (IF "pickled" \in DOMAIN ev THEN If(ev.pickled, "pickled results") ELSE {})
        \cup (IF "filesame" \in DOMAIN ev THEN If(ev.filesame, "annotation files changed") ELSE {}))
TrAfter(s, ev) == s
=============================================================================
