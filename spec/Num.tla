-------------------------------- MODULE Num --------------------------------
(* Fixed-point rationals: reals observed in the implementation are recorded as
   integers in units of 1/scale; the specification computes the exact quotient
   and rounds it. *)
EXTENDS Integers, Sequences, FiniteSets

\* a/b in units of 1/sc, rounded to nearest; zero when b = 0 (a, b >= 0)
Frac(a, b, sc) == IF b = 0 THEN 0 ELSE (2 * a * sc + b) \div (2 * b)
AbsDiff(x, y)  == IF x >= y THEN x - y ELSE y - x
Near(x, y, tol) == AbsDiff(x, y) <= tol
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
RECURSIVE SumSet(_)   \* sum of the second components of a set of pairs
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + SumSet(S \ {x})
=============================================================================
