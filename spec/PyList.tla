------------------------------- MODULE PyList -------------------------------
(* Python list semantics on TLA+ sequences (indices are Python's, from 0). *)
EXTENDS Integers, Sequences, FiniteSets

NoIdx == 9999                      \* an index left out of a slice

PyMin(a, b) == IF a < b THEN a ELSE b
PyMax(a, b) == IF a > b THEN a ELSE b

\* clamped slice bounds
SlStart(n, s, k) ==
    IF k > 0 THEN IF s = NoIdx THEN 0 ELSE IF s < 0 THEN PyMax(s + n, 0) ELSE PyMin(s, n)
    ELSE IF s = NoIdx THEN n - 1 ELSE IF s < 0 THEN PyMax(s + n, -1) ELSE PyMin(s, n - 1)
SlStop(n, e, k) ==
    IF k > 0 THEN IF e = NoIdx THEN n ELSE IF e < 0 THEN PyMax(e + n, 0) ELSE PyMin(e, n)
    ELSE IF e = NoIdx THEN -1 ELSE IF e < 0 THEN PyMax(e + n, -1) ELSE PyMin(e, n - 1)

RECURSIVE Range3(_, _, _)
Range3(a, b, k) == IF (k > 0 /\ a >= b) \/ (k < 0 /\ a <= b) THEN <<>>
                   ELSE <<a>> \o Range3(a + k, b, k)
SlStep(k) == IF k = NoIdx THEN 1 ELSE k
SlIdx(n, s, e, k) == Range3(SlStart(n, s, SlStep(k)), SlStop(n, e, SlStep(k)), SlStep(k))

At(q, i) == q[i + 1]
ItemIdx(n, i) == IF i < 0 THEN i + n ELSE i
ItemOk(n, i) == ItemIdx(n, i) \in 0..(n - 1)

GetSl(q, s, e, k) == LET ix == SlIdx(Len(q), s, e, k) IN [j \in 1..Len(ix) |-> At(q, ix[j])]

RECURSIVE DropIdx(_, _, _)
DropIdx(q, D, j) == IF j > Len(q) THEN <<>>
                    ELSE (IF (j - 1) \in D THEN <<>> ELSE <<q[j]>>) \o DropIdx(q, D, j + 1)
SeqSet(q) == {q[j] : j \in 1..Len(q)}
DelSl(q, s, e, k) == DropIdx(q, SeqSet(SlIdx(Len(q), s, e, k)), 1)
DelItem(q, i) == DropIdx(q, {ItemIdx(Len(q), i)}, 1)
SetItem(q, i, x) == [q EXCEPT ![ItemIdx(Len(q), i) + 1] = x]
InsertAt(q, i, x) == LET a == SlStart(Len(q), i, 1) IN SubSeq(q, 1, a) \o <<x>> \o SubSeq(q, a + 1, Len(q))
\* q[s:e] = r
SetSl(q, s, e, r) == LET a == SlStart(Len(q), s, 1)  b == PyMax(a, SlStop(Len(q), e, 1))
                     IN SubSeq(q, 1, a) \o r \o SubSeq(q, b + 1, Len(q))
\* q[s:e:k] = r with as many items as positions
SetExt(q, s, e, k, r) ==
    LET ix == SlIdx(Len(q), s, e, k) IN
    [j \in 1..Len(q) |-> IF \E m \in 1..Len(ix) : ix[m] = j - 1
                         THEN r[CHOOSE m \in 1..Len(ix) : ix[m] = j - 1] ELSE q[j]]
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
RECURSIVE Times(_, _)
Times(q, n) == IF n <= 0 THEN <<>> ELSE q \o Times(q, n - 1)
=============================================================================
