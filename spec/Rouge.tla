------------------------------- MODULE Rouge -------------------------------
(* Skip bigrams and ROUGE scores (daeso.string.sgram, rouge); n-grams are in Sim.tla. *)
EXTENDS Num, TLC, Json

CONSTANTS Items, MaxLen, Width
VARIABLES seqs, hist
rvars == <<seqs, hist>>

S == INSTANCE Sim
D == INSTANCE SeqDist

\* pairs of items at most d items apart (d < 0: however far), in order
RECURSIVE SkipFrom(_, _, _)
SkipFrom(q, d, i) ==
    IF i > Len(q) THEN <<>>
    ELSE LET m == IF d < 0 \/ i + 1 + d > Len(q) THEN Len(q) ELSE i + 1 + d IN
         [k \in 1..(m - i) |-> <<q[i], q[i + k]>>] \o SkipFrom(q, d, i + 1)
Skips(q, d) == SkipFrom(q, d, 1)
Times(x, q) == Cardinality({i \in 1..Len(q) : q[i] = x})
RECURSIVE SumOver(_, _)
SumOver(f, T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + SumOver(f, T \ {x})
\* occurrences in both, each counted once
Clipped(c, r) == LET T == S!Types(c) \cap S!Types(r) IN SumOver([x \in T |-> Min2(Times(x, c), Times(x, r))], T)
RECURSIVE AllGrams(_, _)
AllGrams(refs, n) == IF refs = <<>> THEN <<>> ELSE S!Slices(refs[1], n) \o AllGrams(Tail(refs), n)
\* fractions
RougeN(c, refs, n) == LET r == AllGrams(refs, n) IN <<Clipped(S!Slices(c, n), r), Len(r)>>
\* F-score of m matches among p predicted and t true; b: weight of recall
F(m, p, t, b) == IF p = 0 \/ t = 0 \/ m = 0 THEN <<0, 1>> ELSE <<(1 + b * b) * m, b * b * t + p>>
RougeL(c, r, b) == F(D!LcsLen(c, r), Len(c), Len(r), b)
RougeS(x, y, d, b) == LET p == Skips(x, d)  q == Skips(y, d) IN F(Cardinality(S!Types(p) \cap S!Types(q)), Len(q), Len(p), b)
RougeSU(x, y, d, b) == RougeS(<<"_">> \o x, <<"_">> \o y, d, b)

\* ---- model
Init == seqs = <<>> /\ hist = <<>>
Seqs == UNION {[1..n -> Items] : n \in 0..MaxLen}
Next == /\ Len(seqs) < Width
        /\ \E q \in Seqs : seqs' = Append(seqs, q)
        /\ hist' = seqs'
Spec == Init /\ [][Next]_rvars
View == seqs
Emit == Len(seqs') = Width => PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
Two == Len(seqs) = 2
Unit(f) == 0 <= f[1] /\ f[1] <= f[2]
Range == Two => LET a == seqs[1]  b == seqs[2] IN
    /\ \A n \in 1..3 : LET f == RougeN(a, <<b>>, n)  g == RougeN(a, <<b, a>>, n) IN (f[2] = 0 \/ Unit(f)) /\ (g[2] = 0 \/ Unit(g))
    /\ \A w \in 1..2 : Unit(RougeL(a, b, w)) /\ \A d \in -1..2 : Unit(RougeS(a, b, d, w)) /\ Unit(RougeSU(a, b, d, w))
Same == Two /\ seqs[1] = seqs[2] => LET a == seqs[1] IN
    /\ \A n \in 1..Len(a) : LET f == RougeN(a, <<a>>, n) IN f[1] = f[2]
    /\ a # <<>> => \A w \in 1..2 : LET f == RougeL(a, a, w) IN f[1] = f[2]
Sym == Two => LET a == seqs[1]  b == seqs[2] IN RougeL(a, b, 1) = RougeL(b, a, 1) /\ \A d \in -1..1 : RougeS(a, b, d, 1) = RougeS(b, a, d, 1)
SkipLaws == Len(seqs) = 1 => LET q == seqs[1]  n == Len(q) IN
    /\ 2 * Len(Skips(q, -1)) = n * (n - 1)
    /\ Skips(q, 0) = S!Slices(q, 2)
    /\ \A d \in 0..2 : S!Types(Skips(q, d)) \subseteq S!Types(Skips(q, d + 1)) /\ Len(Skips(q, d)) <= Len(Skips(q, d + 1))
    /\ Skips(q, MaxLen) = Skips(q, -1)
=============================================================================
