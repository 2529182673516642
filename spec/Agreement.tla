----------------------------- MODULE Agreement -----------------------------
(* Inter-annotator agreement (daeso.pgc.agreement): every annotator's corpus is
   evaluated against every other annotator's.  An annotation is a sequence of
   alignment sets, one per graph pair; terms says which nodes are words. *)
EXTENDS Num, TLC, Json

CONSTANTS NodePairs, Rels, NAnn, NonTerms
VARIABLES ann, hist
gvars == <<ann, hist>>

E == INSTANCE AlignEval WITH NodePairs <- {}, Rels <- {}, MaxAdds <- 0, MaxPairs <- 0, rows <- <<>>, hist <- <<>>

NPs == {<<"a", "a">>, <<"b", "b">>}
\* alignments between words only; S, T: non-terminals of the two graphs
Words(A, S, T) == {a \in A : a[1] \notin S /\ a[2] \notin T}

\* one row per ordered pair of different annotators, in order of true, then predicted annotator
RECURSIVE PairRows(_, _, _, _)
PairRows(names, C, i, j) ==
    IF i > Len(C) THEN <<>>
    ELSE IF j > Len(C) THEN PairRows(names, C, i + 1, 1)
    ELSE (IF i = j THEN <<>> ELSE <<[name |-> <<names[i], names[j]>>, T |-> C[i], P |-> C[j]]>>)
         \o PairRows(names, C, i, j + 1)
Rows(names, C) == PairRows(names, C, 1, 1)

\* value of measure m on relation r of truth i against prediction j
Cell(C, r, m, i, j) == E!Measure(E!CorpusCount(C[i], C[j], r), m, E!U)
Others(C, j) == SelectSeq([k \in 1..Len(C) |-> k], LAMBDA k : k # j)
Column(C, r, m, j) == LET o == Others(C, j) IN [k \in 1..Len(o) |-> Cell(C, r, m, o[k], j)]
ColMean(C, r, m, j) == E!Mean(Column(C, r, m, j))
RECURSIVE AllCells(_, _, _, _)
AllCells(C, r, m, j) == IF j > Len(C) THEN <<>> ELSE Column(C, r, m, j) \o AllCells(C, r, m, j + 1)
Overall(C, r, m) == E!Mean(AllCells(C, r, m, 1))
ColVar(C, r, m, j) == E!VarAround(Column(C, r, m, j), ColMean(C, r, m, j))
OverallVar(C, r, m) == E!VarAround(AllCells(C, r, m, 1), Overall(C, r, m))

Init == ann = <<>> /\ hist = <<>>
AlignSets == {{<<p[1], p[2], f[p]>> : p \in DOMAIN f} : f \in UNION {[S -> Rels] : S \in SUBSET NodePairs}}
Annotate(A) == /\ Len(ann) < NAnn
               /\ ann' = Append(ann, <<A>>)
               /\ hist' = IF Len(ann') < 2 THEN <<>> ELSE <<[op |-> "agree", C |-> ann', words |-> Len(ann') % 2]>>
Next == \E A \in AlignSets : Annotate(A)
Spec == Init /\ [][Next]_gvars
View == ann
Emit == Len(ann') >= 2 => PrintT("PLAN " \o ToJson(hist'))

AllRels == Rels \cup {E!AnyRel}
Pairs == {<<i, j>> \in (1..Len(ann)) \X (1..Len(ann)) : i # j}
Symmetric == \A r \in AllRels, p \in Pairs :
               /\ Cell(ann, r, "prec", p[1], p[2]) = Cell(ann, r, "rec", p[2], p[1])
               /\ Cell(ann, r, "f", p[1], p[2]) = Cell(ann, r, "f", p[2], p[1])
Complete == Len(ann) >= 2 =>
               LET R == Rows([k \in 1..Len(ann) |-> "A" \o ToString(k)], ann) IN
               /\ Len(R) = Len(ann) * (Len(ann) - 1)
               /\ {R[k].name : k \in 1..Len(R)} = {<<"A" \o ToString(p[1]), "A" \o ToString(p[2])>> : p \in Pairs}
PerfectWithSelf == \A r \in AllRels, i \in 1..Len(ann) :
               E!OfRel(ann[i][1], r) # {} => Cell(ann, r, "f", i, i) = E!U
MeansAgree == Len(ann) >= 2 => \A r \in AllRels, m \in {"prec", "rec", "f"} :
               Near(Overall(ann, r, m), E!Mean([j \in 1..Len(ann) |-> ColMean(ann, r, m, j)]), 2)
WordsOnly == \A i \in 1..Len(ann) : LET W == Words(ann[i][1], NonTerms, NonTerms) IN
               W \subseteq ann[i][1] /\ Words(W, NonTerms, NonTerms) = W
=============================================================================
