------------------------------ MODULE PtcEval ------------------------------
(* Scoring and comparing alignments of the same parallel texts (daeso.ptc.evaluate
   and diff).  An alignment is a set of pairs of elements of the two texts; only
   pairs of elements with the given tag count. *)
EXTENDS Num, TLC, Json

CONSTANTS FTags, TTags, MaxPairs
VARIABLES rows, hist
pvars == <<rows, hist>>
U == 10000

F3 == <<"p", "s", "s">>
F2 == <<"p", "s">>
T2 == <<"s", "s">>
T3 == <<"s", "p", "s">>

Of(A, ft, tt, tag) == {p \in A : ft[p[1]] = tag /\ tt[p[2]] = tag}
Counts(T, P, ft, tt, tag) ==
    LET t == Of(T, ft, tt, tag)  p == Of(P, ft, tt, tag) IN
    [true |-> Cardinality(t), pred |-> Cardinality(p), common |-> Cardinality(t \cap p)]
\* all in units of 1/sc; F is 2*common/(true+pred)
Scores(c, sc) == [ratio |-> Frac(c.pred, c.true, sc), prec |-> Frac(c.common, c.pred, sc), rec |-> Frac(c.common, c.true, sc),
                  f |-> Frac(2 * c.common, c.true + c.pred, sc)]
Add(c, d) == [true |-> c.true + d.true, pred |-> c.pred + d.pred, common |-> c.common + d.common]
Zero == [true |-> 0, pred |-> 0, common |-> 0]
RECURSIVE Total(_)
Total(cs) == IF cs = <<>> THEN Zero ELSE Add(cs[1], Total(Tail(cs)))

\* the comparison takes up every pair of an element with the tag in the first text, whatever the other one's tag
From(A, ft, tag) == {p \in A : ft[p[1]] = tag}
TrueOnly(T, P, ft, tt, tag) == From(T, ft, tag) \ From(P, ft, tag)
PredOnly(T, P, ft, tt, tag) == From(P, ft, tag) \ From(T, ft, tag)

\* ---- model
\* the pairs with the same tag, and some with different ones
All == {p \in (1..Len(FTags)) \X (1..Len(TTags)) : FTags[p[1]] = TTags[p[2]] \/ p[1] = p[2]}
Init == rows = <<>> /\ hist = <<>>
Row == /\ Len(rows) < MaxPairs
       /\ \E T \in SUBSET All, P \in SUBSET All :
            /\ rows' = Append(rows, [T |-> T, P |-> P])
            /\ hist' = rows'
Next == Row
Spec == Init /\ [][Next]_pvars
View == rows
Emit == Len(rows') = MaxPairs => PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
C(k, tag) == Counts(rows[k].T, rows[k].P, FTags, TTags, tag)
R(k, tag) == Counts(rows[k].P, rows[k].T, FTags, TTags, tag)
Sane == \A k \in 1..Len(rows), tag \in {"p", "s"} : LET s == Scores(C(k, tag), U) IN
    /\ C(k, tag).common <= C(k, tag).true /\ C(k, tag).common <= C(k, tag).pred
    /\ 0 <= s.prec /\ s.prec <= U /\ 0 <= s.rec /\ s.rec <= U
    /\ Min2(s.prec, s.rec) - 1 <= s.f /\ s.f <= Max2(s.prec, s.rec) + 1
Swap == \A k \in 1..Len(rows), tag \in {"p", "s"} :
    /\ Scores(C(k, tag), U).prec = Scores(R(k, tag), U).rec /\ Scores(C(k, tag), U).f = Scores(R(k, tag), U).f
    /\ TrueOnly(rows[k].T, rows[k].P, FTags, TTags, tag) = PredOnly(rows[k].P, rows[k].T, FTags, TTags, tag)
Agree == \A k \in 1..Len(rows), tag \in {"p", "s"} :
    LET a == Of(TrueOnly(rows[k].T, rows[k].P, FTags, TTags, tag), FTags, TTags, tag)
        b == Of(PredOnly(rows[k].T, rows[k].P, FTags, TTags, tag), FTags, TTags, tag) IN
    /\ Cardinality(a) = C(k, tag).true - C(k, tag).common
    /\ Cardinality(b) = C(k, tag).pred - C(k, tag).common
    /\ a \cap b = {}
=============================================================================
