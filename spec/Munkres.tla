------------------------------ MODULE Munkres ------------------------------
(* The assignment problem (daeso.thirdparty.munkres).

   First what is wanted, in two independent forms: an assignment of rows to columns is optimal if no other one
   costs less (Best), or equivalently if no cyclic exchange of columns lowers its cost (NoGain; usable for
   large matrices).  Then the Hungarian algorithm itself as a state machine over the reduced matrix C, stars,
   primes and covers; TLC checks for all matrices over small constants that it keeps its invariants, ends, and ends with an
   optimal assignment.  The model-checked matrices are run on the code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Rows(m) == Len(m)
Cols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
Size(m) == IF Rows(m) > Cols(m) THEN Rows(m) ELSE Cols(m)
Pad(m) == [i \in 1..Size(m) |-> [j \in 1..Size(m) |-> IF i <= Rows(m) /\ j <= Cols(m) THEN m[i][j] ELSE 0]]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Less(a, b) == IF a < b THEN a ELSE b

\* ---------------------------------------------------------------- what is wanted
\* pairs q, a sequence of <<row, column>>
Proper(m, q) == /\ Len(q) = Less(Rows(m), Cols(m))
                /\ \A i \in 1..Len(q) : q[i][1] \in 1..Rows(m) /\ q[i][2] \in 1..Cols(m)
                /\ \A i, j \in 1..Len(q) : i # j => q[i][1] # q[j][1] /\ q[i][2] # q[j][2]
RECURSIVE Cost(_, _), BestFrom(_, _, _)
Cost(m, q) == IF q = <<>> THEN 0 ELSE m[q[1][1]][q[1][2]] + Cost(m, Tail(q))
\* the lowest cost of assigning rows i.. of a square matrix to the columns J
BestFrom(m, i, J) == IF J = {} THEN 0 ELSE Least({m[i][j] + BestFrom(m, i + 1, J \ {j}) : j \in J})
Best(m) == LET p == TLCEval(Pad(m)) IN BestFrom(p, 1, 1..Size(m))
\* the assignment of the padded square that extends q
Extend(m, q) ==
    LET n == Size(m)
        R == {q[i][1] : i \in 1..Len(q)}   J == {q[i][2] : i \in 1..Len(q)}
        freeR == (1..n) \ R   freeJ == (1..n) \ J
        Rank(x, S) == Cardinality({y \in S : y < x})
    IN [r \in 1..n |-> IF r \in R THEN q[CHOOSE i \in 1..Len(q) : q[i][1] = r][2]
                       ELSE CHOOSE j \in freeJ : Rank(j, freeJ) = Rank(r, freeR)]
\* d[i][j]: the cost of row i taking over the column of row j; closed under going through rows 1..k
RECURSIVE Close(_, _, _)
Close(d, n, k) == IF k = 0 THEN d ELSE
    LET e == TLCEval(Close(d, n, k - 1)) IN [i \in 1..n |-> [j \in 1..n |-> Less(e[i][j], e[i][k] + e[k][j])]]
NoGain(m, q) ==
    LET n == Size(m)   p == TLCEval(Pad(m))   s == TLCEval(Extend(m, q))
        d == [i \in 1..n |-> [j \in 1..n |-> p[i][s[j]] - p[i][s[i]]]]
        c == TLCEval(Close(TLCEval(d), n, n))
    IN \A i \in 1..n : c[i][i] >= 0

\* ---------------------------------------------------------------- the algorithm
CONSTANTS Shapes, Costs, Distinct
VARIABLES m, C, star, prime, rc, cc, pc, steps
vars == <<m, C, star, prime, rc, cc, pc, steps>>
View == vars
N == Size(m)
Idx == 1..N

Matrices(r, c) == [1..r -> [1..c -> Costs]]
\* matrices whose rows are sorted stand for all others up to the order of the rows
RECURSIVE LexLe(_, _)
LexLe(a, b) == a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLe(Tail(a), Tail(b)))
Init == /\ \E sh \in Shapes : m \in {x \in Matrices(sh[1], sh[2]) : Distinct => \A i \in 1..(sh[1] - 1) : LexLe(x[i], x[i + 1])}
        /\ LET p == Pad(m) IN C = [i \in 1..Size(m) |-> LET l == Least({p[i][j] : j \in 1..Size(m)}) IN [j \in 1..Size(m) |-> p[i][j] - l]]
        /\ star = {} /\ prime = {} /\ rc = {} /\ cc = {}
        /\ pc = "star" /\ steps = 0
First(S) == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Free == {x \in Idx \X Idx : C[x[1]][x[2]] = 0 /\ x[1] \notin rc /\ x[2] \notin cc}
Stars == LET S == {x \in Idx \X Idx : C[x[1]][x[2]] = 0 /\ ~\E y \in star : y[1] = x[1] \/ y[2] = x[2]} IN S

\* star independent zeros greedily
Star == /\ pc = "star"
        /\ IF Stars = {} THEN pc' = "cover" /\ star' = star ELSE star' = star \cup {First(Stars)} /\ pc' = pc
        /\ UNCHANGED <<m, C, prime, rc, cc>>
Cover == /\ pc = "cover"
         /\ cc' = {x[2] : x \in star}
         /\ pc' = IF Cardinality(star) = N THEN "done" ELSE "prime"
         /\ UNCHANGED <<m, C, star, prime, rc>>
Prime == /\ pc = "prime" /\ Free # {}
         /\ LET z == First(Free) IN
            /\ prime' = prime \cup {z}
            /\ IF \E y \in star : y[1] = z[1]
               THEN LET y == CHOOSE y \in star : y[1] = z[1] IN
                    rc' = rc \cup {z[1]} /\ cc' = cc \ {y[2]} /\ pc' = pc
               ELSE pc' = "path" /\ UNCHANGED <<rc, cc>>
         /\ UNCHANGED <<m, C, star>>
Adjust == /\ pc = "prime" /\ Free = {}
          /\ LET l == Least({C[i][j] : i \in Idx \ rc, j \in Idx \ cc}) IN
             C' = [i \in Idx |-> [j \in Idx |-> C[i][j] + (IF i \in rc THEN l ELSE 0) - (IF j \notin cc THEN l ELSE 0)]]
          /\ UNCHANGED <<m, star, prime, rc, cc, pc>>
\* the prime without a star in its row starts an alternating path of primes and stars
Last0 == CHOOSE z \in prime : (~\E y \in star : y[1] = z[1])
RECURSIVE Path(_)
Path(z) == {z} \cup (IF \E y \in star : y[2] = z[2]
                     THEN LET y == CHOOSE y \in star : y[2] = z[2]
                              p == CHOOSE p \in prime : p[1] = y[1] IN {y} \cup Path(p)
                     ELSE {})
Augment == /\ pc = "path"
           /\ LET P == Path(Last0) IN star' = (star \ P) \cup (P \ star)
           /\ prime' = {} /\ rc' = {} /\ cc' = {} /\ pc' = "cover"
           /\ UNCHANGED <<m, C>>
Next == (Star \/ Cover \/ Prime \/ Adjust \/ Augment) /\ steps' = steps + 1
Spec == Init /\ [][Next]_vars

Result == LET S == {x \in star : x[1] <= Rows(m) /\ x[2] <= Cols(m)}
              RECURSIVE Seqn(_)
              Seqn(X) == IF X = {} THEN <<>> ELSE LET f == First(X) IN <<f>> \o Seqn(X \ {f})
          IN Seqn(S)
Independent == \A x, y \in star : x # y => x[1] # y[1] /\ x[2] # y[2]
Reduced == (\A i, j \in Idx : C[i][j] >= 0) /\ \A x \in star \cup prime : C[x[1]][x[2]] = 0
Optimal == pc = "done" => /\ Proper(m, Result)
                          /\ Cost(m, Result) = Best(m)
                          /\ NoGain(m, Result)
\* both forms of optimality agree, for every assignment of a small matrix
Agree == (pc = "star" /\ steps = 0 /\ Rows(m) = 2 /\ Cols(m) = 3) =>
            \A a, b \in 1..3 : a # b => LET q == <<<<1, a>>, <<2, b>>>> IN NoGain(m, q) <=> Cost(m, q) = Best(m)
Ends == steps <= 8 * N * N + 8 * N
Going == pc # "done" => ENABLED Next
Emit == (pc = "star" /\ steps = 0) => PrintT("PLAN " \o ToJson(m))
MCShapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
MCMore == {<<3, 4>>, <<4, 2>>, <<2, 4>>}
MCCosts == {-1, 0, 1, 3}
MCFew == {0, 1, 2}
MCTwo == {0, 1}
MCFour == {<<4, 4>>}
=============================================================================
