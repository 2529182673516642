--------------------------------- MODULE Sim ---------------------------------
(* Similarity of sequences (daeso.string.similar) and n-grams (daeso.string.ngram).
   Intersections are taken over types, sizes are the numbers of items. *)
EXTENDS Num, TLC, Json

CONSTANTS Items, MaxLen, Width
VARIABLES seqs, hist
svars == <<seqs, hist>>

Types(q) == {q[i] : i \in 1..Len(q)}
Inter(a, b) == Cardinality(Types(a) \cap Types(b))
Union(a, b) == Cardinality(Types(a) \cup Types(b))
TypeMatch(a, b) == Inter(a, b)
TokenMatch(a, b) == Cardinality({i \in 1..Len(a) : a[i] \in Types(b)})
\* fractions <<numerator, denominator>>
SymTokenMatch(a, b) == <<TokenMatch(a, b) + TokenMatch(b, a), 2>>
Jaccard(a, b) == <<Inter(a, b), Union(a, b)>>
Dice(a, b) == <<2 * Inter(a, b), Len(a) + Len(b)>>
Tanimoto(a, b) == <<Inter(a, b), Len(a) + Len(b) - Inter(a, b)>>
OverlapMin(a, b) == <<Inter(a, b), Min2(Len(a), Len(b))>>
OverlapMax(a, b) == <<Inter(a, b), Max2(Len(a), Len(b))>>
Measures == {"jaccard", "dice", "tanimoto", "overlap_min", "overlap_max", "sym_token_match"}
Measure(m, a, b) == CASE m = "jaccard" -> Jaccard(a, b) [] m = "dice" -> Dice(a, b) [] m = "tanimoto" -> Tanimoto(a, b)
                      [] m = "overlap_min" -> OverlapMin(a, b) [] m = "overlap_max" -> OverlapMax(a, b)
                      [] m = "sym_token_match" -> SymTokenMatch(a, b)
\* sequences of sequences
RECURSIVE InterAll(_), UnionAll(_), LenAll(_), ProdAll(_)
InterAll(Q) == IF Len(Q) = 1 THEN Types(Q[1]) ELSE Types(Q[1]) \cap InterAll(Tail(Q))
UnionAll(Q) == IF Q = <<>> THEN {} ELSE Types(Q[1]) \cup UnionAll(Tail(Q))
LenAll(Q) == IF Q = <<>> THEN 0 ELSE Len(Q[1]) + LenAll(Tail(Q))
ProdAll(Q) == IF Q = <<>> THEN 1 ELSE Len(Q[1]) * ProdAll(Tail(Q))
NInter(Q) == IF Q = <<>> THEN 0 ELSE Cardinality(InterAll(Q))
GDice(Q) == <<Len(Q) * NInter(Q), LenAll(Q)>>
GJaccard(Q) == <<NInter(Q), Cardinality(UnionAll(Q))>>
\* c (in units of 1/sc) is n / sqrt(p), give or take one unit; 0 when p = 0
RootOk(c, n, p, sc) == IF p = 0 THEN c = 0
                       ELSE LET t == sc * sc * n * n IN
                            /\ c >= 0 /\ (IF c = 0 THEN 0 ELSE (c - 1) * (c - 1)) * p <= t /\ t <= (c + 1) * (c + 1) * p

\* ---- n-grams
Rep(x, n) == [i \in 1..n |-> x]
Pad(q, n, x) == Rep(x, n) \o q \o Rep(x, n)
Slices(q, n) == IF n < 1 \/ Len(q) < n THEN <<>> ELSE [i \in 1..(Len(q) - n + 1) |-> SubSeq(q, i, i + n - 1)]
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Grams(q, n, sep) == LET s == Slices(q, n) IN [i \in 1..Len(s) |-> Join(s[i], sep)]

\* ---- texts
Blank == {" ", "\t", "\n"}
Chars(x) == [i \in 1..Len(x) |-> SubSeq(x, i, i)]
RECURSIVE WordsFrom(_, _, _)
WordsFrom(cs, i, w) == IF i > Len(cs) THEN (IF w = "" THEN <<>> ELSE <<w>>)
                       ELSE IF cs[i] \in Blank THEN (IF w = "" THEN <<>> ELSE <<w>>) \o WordsFrom(cs, i + 1, "")
                       ELSE WordsFrom(cs, i + 1, w \o cs[i])
Words(x) == WordsFrom(Chars(x), 1, "")
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerOf == [c \in {SubSeq(Upper, i, i) : i \in 1..26} |-> LET i == CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = c IN SubSeq(Lower, i, i)]
LowerCase(x) == Join([i \in 1..Len(x) |-> LET c == SubSeq(x, i, i) IN IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c], "")

\* ---- model: every list of sequences up to the bounds
Init == seqs = <<>> /\ hist = <<>>
Seqs == UNION {[1..n -> Items] : n \in 0..MaxLen}
Next == /\ Len(seqs) < Width
        /\ \E q \in Seqs : seqs' = Append(seqs, q)
        /\ hist' = seqs'
Spec == Init /\ [][Next]_svars
View == seqs
Emit == Len(seqs') >= 2 => PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
Pairs2 == Len(seqs) = 2
Distinct(q) == Cardinality(Types(q)) = Len(q)
Zero(m) == m[1] = 0
One(m) == m[1] = m[2]
LE(m, k) == m[1] * k[2] <= k[1] * m[2]
Symmetric == Pairs2 => \A m \in Measures : Measure(m, seqs[1], seqs[2]) = Measure(m, seqs[2], seqs[1])
InUnit == Pairs2 => \A m \in Measures \ {"sym_token_match"} : LET r == Measure(m, seqs[1], seqs[2]) IN 0 <= r[1] /\ r[1] <= r[2]
Alike == Pairs2 /\ seqs[1] = seqs[2] /\ seqs[1] # <<>> /\ Distinct(seqs[1]) => \A m \in Measures \ {"sym_token_match"} : One(Measure(m, seqs[1], seqs[2]))
Unlike == Pairs2 => \A m \in Measures : Zero(Measure(m, seqs[1], seqs[2])) <=> Types(seqs[1]) \cap Types(seqs[2]) = {}
Ordered == Pairs2 => LET a == seqs[1]  b == seqs[2] IN
    /\ LE(Tanimoto(a, b), Dice(a, b))
    /\ LE(OverlapMax(a, b), OverlapMin(a, b))
    /\ LE(Tanimoto(a, b), Jaccard(a, b))
General == Pairs2 => LET a == seqs[1]  b == seqs[2] IN GDice(seqs) = Dice(a, b) /\ GJaccard(seqs) = Jaccard(a, b)
GBound == Len(seqs) >= 1 => GDice(seqs)[1] <= GDice(seqs)[2] /\ GJaccard(seqs)[1] <= GJaccard(seqs)[2]
NGrams == Len(seqs) = 1 => \A n \in 1..(MaxLen + 1), p \in 0..2 : LET q == Pad(seqs[1], p, "_")  g == Slices(q, n) IN
    /\ Len(g) = (IF Len(q) < n THEN 0 ELSE Len(q) - n + 1)
    /\ \A i \in 1..Len(g) : Len(g[i]) = n /\ (i > 1 => SubSeq(g[i], 1, n - 1) = SubSeq(g[i - 1], 2, n))
=============================================================================
