----------------------------- MODULE AlignEval -----------------------------
(* Evaluation of predicted against true alignments (daeso.pgc.evaluate).
   A graph pair is its set of alignments <<source, target, relation>> with at
   most one relation per node pair; a corpus is a sequence of graph pairs; the
   evaluation is a sequence of rows, one per pair of corpora added.
   Measures are exact rationals, rendered in units of 1/U. *)
EXTENDS Num, TLC, Json

CONSTANTS NodePairs, Rels, MaxAdds, MaxPairs
VARIABLES rows, hist
avars == <<rows, hist>>

NP3 == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
NP2 == {<<1, 1>>, <<1, 2>>}
AnyRel == "__any_rel__"
U == 10000

\* ---- counts of one graph pair
OfRel(A, r) == IF r = AnyRel THEN A ELSE {a \in A : a[3] = r}
Common(T, P, r) == IF r = AnyRel
                   THEN {t \in T : \E p \in P : p[1] = t[1] /\ p[2] = t[2]}
                   ELSE OfRel(T, r) \cap OfRel(P, r)
PairCount(T, P, r) == [true |-> Cardinality(OfRel(T, r)), pred |-> Cardinality(OfRel(P, r)),
                       common |-> Cardinality(Common(T, P, r))]
RECURSIVE AddUp(_)
AddUp(cs) == IF cs = <<>> THEN [true |-> 0, pred |-> 0, common |-> 0]
             ELSE LET h == cs[1]
                      t == AddUp(Tail(cs)) IN
                  [true |-> h.true + t.true, pred |-> h.pred + t.pred, common |-> h.common + t.common]
\* counts of one pair of corpora (equally long sequences of alignment sets)
CorpusCount(T, P, r) == AddUp([k \in 1..Len(T) |-> PairCount(T[k], P[k], r)])

\* ---- measures of counts: numerator, denominator
Ratio(c, m) == CASE m = "prec" -> <<c.common, c.pred>>
                 [] m = "rec"  -> <<c.common, c.true>>
                 [] m = "f"    -> <<2 * c.common, c.true + c.pred>>
Measure(c, m, sc) == LET q == Ratio(c, m) IN Frac(q[1], q[2], sc)
Measures == {"prec", "rec", "f"}
Counts == {"true", "pred", "common"}

\* ---- statistics over the rows of one relation (cs: sequence of counts)
Values(cs, m) == [k \in 1..Len(cs) |-> Measure(cs[k], m, U)]
Mean(q) == Frac(SumSeq(q), Len(q), 1)
MacroMean(cs, m) == Mean(Values(cs, m))
MicroMean(cs, m) == Measure(AddUp(cs), m, U)
\* sample variance around mu, in units of 1/U (values and mu in units of 1/U)
VarAround(q, mu) == IF Len(q) = 1 THEN 0
                    ELSE Frac(SumSeq([k \in 1..Len(q) |-> (q[k] - mu) * (q[k] - mu)]), (Len(q) - 1) * U, 1)
CountVar(q) == IF Len(q) = 1 THEN 0      \* units of 1/100
               ELSE Frac(Len(q) * SumSeq([k \in 1..Len(q) |-> q[k] * q[k]]) - SumSeq(q) * SumSeq(q),
                         Len(q) * (Len(q) - 1), 100)

\* ---- the evaluation: rows is a sequence of [name, T, P]
RowCounts(rs, r) == [k \in 1..Len(rs) |-> CorpusCount(rs[k].T, rs[k].P, r)]
RECURSIVE SumOver(_, _, _)   \* counts summed over a sequence of relations
SumOver(rs, rl, k) == IF k > Len(rl) THEN AddUp(<<>>)
                      ELSE AddUp(<<AddUp(RowCounts(rs, rl[k])), SumOver(rs, rl, k + 1)>>)
OverallMicro(rs, rl, m) == Measure(SumOver(rs, rl, 1), m, U)
OverallMacro(rs, rl, m) == Mean([k \in 1..Len(rl) |-> MicroMean(RowCounts(rs, rl[k]), m)])

Init == rows = <<>> /\ hist = <<>>

AlignSets == UNION {[S -> Rels] : S \in SUBSET NodePairs}
AsTriples(f) == {<<p[1], p[2], f[p]>> : p \in DOMAIN f}
AddRow(T, P) == /\ Len(rows) < MaxAdds
                /\ rows' = Append(rows, [name |-> "", T |-> T, P |-> P])
                /\ hist' = Append(hist, [op |-> "add", T |-> T, P |-> P])
Corpora(n) == [1..n -> {AsTriples(f) : f \in AlignSets}]
Next == \E n \in 1..MaxPairs : \E T, P \in Corpora(n) : AddRow(T, P)
Spec == Init /\ [][Next]_avars
View == rows
Emit == PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
AllRel == Rels \cup {AnyRel}
Sane == \A k \in 1..Len(rows), r \in AllRel :
            LET c == CorpusCount(rows[k].T, rows[k].P, r) IN
            /\ c.common <= Min2(c.true, c.pred)
            /\ \A m \in Measures : Measure(c, m, U) \in 0..U
            /\ Min2(Measure(c, "prec", U), Measure(c, "rec", U)) <= Measure(c, "f", U) + 1
            /\ Measure(c, "f", U) <= Max2(Measure(c, "prec", U), Measure(c, "rec", U)) + 1
            /\ (c.true > 0 /\ rows[k].T = rows[k].P) => Measure(c, "f", U) = U
\* swapping the roles swaps precision and recall
Swap == \A k \in 1..Len(rows), r \in AllRel :
            LET c == CorpusCount(rows[k].T, rows[k].P, r)
                d == CorpusCount(rows[k].P, rows[k].T, r) IN
            /\ c.common = d.common /\ c.true = d.pred /\ c.pred = d.true
            /\ Measure(c, "prec", U) = Measure(d, "rec", U)
            /\ Measure(c, "f", U) = Measure(d, "f", U)
\* relations partition the alignments; labels can only lose common ones
Partition == \A k \in 1..Len(rows) :
            LET tot == CorpusCount(rows[k].T, rows[k].P, AnyRel)
                per == {<<r, CorpusCount(rows[k].T, rows[k].P, r)>> : r \in Rels} IN
            /\ tot.true = SumSet({<<x[1], x[2].true>> : x \in per})
            /\ tot.pred = SumSet({<<x[1], x[2].pred>> : x \in per})
            /\ tot.common >= SumSet({<<x[1], x[2].common>> : x \in per})
\* the order of the rows is irrelevant
OrderFree == Len(rows) = 2 =>
            LET sw == <<rows[2], rows[1]>> IN
            \A r \in AllRel, m \in Measures :
               /\ MicroMean(RowCounts(rows, r), m) = MicroMean(RowCounts(sw, r), m)
               /\ MacroMean(RowCounts(rows, r), m) = MacroMean(RowCounts(sw, r), m)
               /\ AddUp(RowCounts(rows, r)) = AddUp(RowCounts(sw, r))
=============================================================================
