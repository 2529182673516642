------------------------------ MODULE SeqDist ------------------------------
(* Distance and common subsequence of sequences, and set medians
   (daeso.string.levenshtein, lcs, median). *)
EXTENDS Num, TLC, Json

CONSTANTS Items, MaxLen, Width
VARIABLES seqs, hist
dvars == <<seqs, hist>>

\* ---- tables, row by row (row j+1: the first j items of a)
RECURSIVE LevRow(_, _, _, _, _)
LevRow(a, x, prev, j, acc) ==
    IF j > Len(a) THEN acc
    ELSE LevRow(a, x, prev, j + 1, Append(acc, Min2(Min2(prev[j + 1] + 1, acc[j] + 1), prev[j] + (IF a[j] = x THEN 0 ELSE 1))))
RECURSIVE LevRows(_, _, _, _)
LevRows(a, b, i, prev) == IF i > Len(b) THEN prev ELSE LevRows(a, b, i + 1, LevRow(a, b[i], prev, 1, <<prev[1] + 1>>))
Lev(a, b) == LevRows(a, b, 1, [j \in 1..(Len(a) + 1) |-> j - 1])[Len(a) + 1]
RECURSIVE LcsRow(_, _, _, _, _)
LcsRow(a, x, prev, j, acc) ==
    IF j > Len(a) THEN acc
    ELSE LcsRow(a, x, prev, j + 1, Append(acc, IF a[j] = x THEN prev[j] + 1 ELSE Max2(prev[j + 1], acc[j])))
RECURSIVE LcsRows(_, _, _, _)
LcsRows(a, b, i, prev) == IF i > Len(b) THEN prev ELSE LcsRows(a, b, i + 1, LcsRow(a, b[i], prev, 1, <<0>>))
LcsLen(a, b) == LcsRows(a, b, 1, [j \in 1..(Len(a) + 1) |-> 0])[Len(a) + 1]

RECURSIVE IsSubFrom(_, _, _, _)
IsSubFrom(s, i, q, j) == IF i > Len(s) THEN TRUE ELSE IF j > Len(q) THEN FALSE
                         ELSE IF s[i] = q[j] THEN IsSubFrom(s, i + 1, q, j + 1) ELSE IsSubFrom(s, i, q, j + 1)
IsSub(s, q) == IsSubFrom(s, 1, q, 1)

RECURSIVE SumTo(_, _)
SumTo(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumTo(f, S \ {x})
\* d: matrix of distances between n items
Sums(d, n) == [i \in 1..n |-> SumTo([j \in 1..n |-> d[i][j]], 1..n)]
Medians(d, n) == LET s == Sums(d, n) IN {i \in 1..n : \A j \in 1..n : s[i] <= s[j]}

\* ---- model: every list of sequences up to the bounds
Init == seqs = <<>> /\ hist = <<>>
Seqs == UNION {[1..n -> Items] : n \in 0..MaxLen}
Next == /\ Len(seqs) < Width
        /\ \E q \in Seqs : seqs' = Append(seqs, q)
        /\ hist' = seqs'
Spec == Init /\ [][Next]_dvars
View == seqs
Emit == Len(seqs') = Width => PrintT("PLAN " \o ToJson(hist'))

\* ---- laws: the tables compute what the definitions say
Matchings(a, b) == {M \in SUBSET ((1..Len(a)) \X (1..Len(b))) :
                      \A p, q \in M : p # q => (p[1] < q[1] /\ p[2] < q[2]) \/ (p[1] > q[1] /\ p[2] > q[2])}
Cost(a, b, M) == Len(a) + Len(b) - 2 * Cardinality(M) + Cardinality({p \in M : a[p[1]] # b[p[2]]})
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Two == Len(seqs) = 2
LevIsLeast == Two => LET a == seqs[1]  b == seqs[2] IN Lev(a, b) = MinOf({Cost(a, b, M) : M \in Matchings(a, b)})
LcsIsLongest == Two => LET a == seqs[1]  b == seqs[2] IN
    LcsLen(a, b) = MaxOf({Cardinality(M) : M \in {N \in Matchings(a, b) : \A p \in N : a[p[1]] = b[p[2]]}})
Bounds == Two => LET a == seqs[1]  b == seqs[2]  d == Lev(a, b) IN
    /\ AbsDiff(Len(a), Len(b)) <= d /\ d <= Max2(Len(a), Len(b))
    /\ (d = 0 <=> a = b) /\ d = Lev(b, a)
    /\ d <= Len(a) + Len(b) - 2 * LcsLen(a, b) /\ LcsLen(a, b) = LcsLen(b, a)
    /\ \A s \in Seqs : IsSub(s, a) /\ IsSub(s, b) => Len(s) <= LcsLen(a, b)
Triangle == Len(seqs) = 3 => Lev(seqs[1], seqs[3]) <= Lev(seqs[1], seqs[2]) + Lev(seqs[2], seqs[3])
Median == Len(seqs) >= 1 => LET n == Len(seqs)  d == [i \in 1..n |-> [j \in 1..n |-> Lev(seqs[i], seqs[j])]] IN
    /\ Medians(d, n) # {}
    /\ \A i \in 1..n : (\A j \in 1..n : seqs[j] = seqs[i]) => i \in Medians(d, n)
=============================================================================
