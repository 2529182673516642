------------------------------- MODULE Diff -------------------------------
(* Comparison of two annotations of the same graph pairs (daeso.pgc.diff).
   An annotation of a graph pair is a function from node pairs to relations.
   opts: rels (empty for all), words (only words), ident (show identical ones);
   NT: <<non-terminals of the source graph, non-terminals of the target graph>> *)
EXTENDS Num, TLC, Json

CONSTANTS NodePairs, Rels, NonTerms
VARIABLES a1, a2, hist
dvars == <<a1, a2, hist>>

NT0 == <<{"0"}, {"0"}>>
NP2 == {<<"1", "1">>, <<"2", "2">>}
NP3 == {<<"0", "0">>, <<"1", "1">>, <<"2", "0">>}

Words(p, NT) == p[1] \notin NT[1] /\ p[2] \notin NT[2]
Asked(rels, r) == rels = {} \/ r \in rels
\* the alignments the comparison is about
Scope(A, B, opts, NT) ==
    {p \in DOMAIN A \cup DOMAIN B :
        /\ (opts.words => Words(p, NT))
        /\ \/ p \in DOMAIN A /\ Asked(opts.rels, A[p])
           \/ p \in DOMAIN B /\ Asked(opts.rels, B[p])}
None == "None"
Rel(A, p) == IF p \in DOMAIN A THEN A[p] ELSE None
Class(A, B, p) == IF p \notin DOMAIN B THEN "only1" ELSE IF p \notin DOMAIN A THEN "only2"
                  ELSE IF A[p] = B[p] THEN "ident" ELSE "rel"
Section(A, B, opts, NT, c) == {<<p[1], p[2], Rel(A, p), Rel(B, p)>> : p \in {q \in Scope(A, B, opts, NT) : Class(A, B, q) = c}}
Sections(opts) == (IF opts.ident THEN <<"ident">> ELSE <<>>) \o <<"rel", "only1", "only2">>

\* ---- model
Fns == UNION {[S -> Rels] : S \in SUBSET NodePairs}
Trip(A) == {<<p[1], p[2], A[p]>> : p \in DOMAIN A}
Opts == [words : BOOLEAN, ident : BOOLEAN, rels : {{}} \cup {{r} : r \in Rels}]
Unset == [p \in {} |-> ""]
Init == a1 = Unset /\ a2 = Unset /\ hist = <<>>
Compare(o) == /\ hist = <<>>
              /\ \E A \in Fns, B \in Fns :
                   /\ a1' = A /\ a2' = B
                   /\ hist' = <<[op |-> "diff", A |-> <<Trip(A)>>, B |-> <<Trip(B)>>, words |-> o.words, ident |-> o.ident, rels |-> o.rels]>>
Next == \E o \in Opts : Compare(o)
Spec == Init /\ [][Next]_dvars
View == dvars
Emit == PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
All == {"ident", "rel", "only1", "only2"}
S(A, B, o, c) == Section(A, B, o, NonTerms, c)
Partition == \A o \in Opts :
    /\ \A c, d \in All : c # d => S(a1, a2, o, c) \cap S(a1, a2, o, d) = {}
    /\ {<<x[1], x[2]>> : x \in UNION {S(a1, a2, o, c) : c \in All}} = Scope(a1, a2, o, NonTerms)
Swap == \A o \in Opts :
    /\ S(a1, a2, o, "only1") = {<<x[1], x[2], x[4], x[3]>> : x \in S(a2, a1, o, "only2")}
    /\ \A c \in {"ident", "rel"} : S(a1, a2, o, c) = {<<x[1], x[2], x[4], x[3]>> : x \in S(a2, a1, o, c)}
Same == \A o \in Opts : o.rels = {} /\ ~o.words =>
    ((S(a1, a2, o, "rel") \cup S(a1, a2, o, "only1") \cup S(a1, a2, o, "only2") = {}) <=> a1 = a2)
Limits == \A o \in Opts, c \in All :
    /\ S(a1, a2, o, c) \subseteq S(a1, a2, [o EXCEPT !.rels = {}, !.words = FALSE], c)
    /\ o.words => \A x \in S(a1, a2, o, c) : Words(x, NonTerms)
    /\ S(a1, a2, [o EXCEPT !.rels = {}], c) = UNION {S(a1, a2, [o EXCEPT !.rels = {r}], c) : r \in Rels}
=============================================================================
