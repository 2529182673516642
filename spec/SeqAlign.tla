------------------------------ MODULE SeqAlign ------------------------------
(* Global and local alignment of sequences (daeso.string.needleman_wunsch,
   smith_waterman, waterman_eggert).  sim[x][y]: similarity of two items,
   gap[x]: (negative or zero) cost of skipping an item. *)
EXTENDS Num, TLC, Json

CONSTANTS Items, MaxLen, Params
VARIABLES a, b, par, hist
gvars == <<a, b, par, hist>>

\* ---- tables: T[i+1][j+1] for the first i items of a and j items of b.
\* floor: the least score an entry may have (0 for local alignments)
RECURSIVE RowFrom(_, _, _, _, _, _, _)
RowFrom(x, q, prev, j, acc, sc, floor) ==
    IF j > Len(q) THEN acc
    ELSE LET best == Max2(Max2(prev[j + 1] + sc.gap[x], acc[j] + sc.gap[q[j]]), prev[j] + sc.sim[x][q[j]])
         IN RowFrom(x, q, prev, j + 1, Append(acc, IF floor THEN Max2(0, best) ELSE best), sc, floor)
RECURSIVE Border(_, _, _, _)
Border(q, j, acc, sc) == IF j > Len(q) THEN acc ELSE Border(q, j + 1, Append(acc, acc[j] + sc.gap[q[j]]), sc)
RECURSIVE RowsFrom(_, _, _, _, _, _)
RowsFrom(p, q, i, acc, sc, floor) ==
    IF i > Len(p) THEN acc
    ELSE LET prev == acc[i]  first == IF floor THEN 0 ELSE prev[1] + sc.gap[p[i]]
         IN RowsFrom(p, q, i + 1, Append(acc, RowFrom(p[i], q, prev, 1, <<first>>, sc, floor)), sc, floor)
Global(p, q, sc) == RowsFrom(p, q, 1, <<Border(q, 1, <<0>>, sc)>>, sc, FALSE)
Local(p, q, sc) == RowsFrom(p, q, 1, <<[j \in 1..(Len(q) + 1) |-> 0]>>, sc, TRUE)
GlobalBest(p, q, sc) == Global(p, q, sc)[Len(p) + 1][Len(q) + 1]
Cells(T) == {<<i, j>> : i \in 1..Len(T), j \in 1..Len(T[1])}
LocalBest(T) == LET c == CHOOSE c \in Cells(T) : \A d \in Cells(T) : T[d[1]][d[2]] <= T[c[1]][c[2]] IN T[c[1]][c[2]]
\* where the first local alignment ends: the best entry with the least i+j, then the least i
EndCell(T) == LET m == LocalBest(T)
                  C == {c \in Cells(T) : T[c[1]][c[2]] = m}
              IN CHOOSE c \in C : \A d \in C : c[1] + c[2] < d[1] + d[2] \/ (c[1] + c[2] = d[1] + d[2] /\ c[1] <= d[1])

\* ---- alignments: increasing sequences of pairs of positions
Increasing(P) == \A k \in 1..(Len(P) - 1) : P[k][1] < P[k + 1][1] /\ P[k][2] < P[k + 1][2]
InRange(P, p, q) == \A k \in 1..Len(P) : P[k][1] \in 1..Len(p) /\ P[k][2] \in 1..Len(q)
RECURSIVE GapSum(_, _, _, _)
GapSum(q, i, j, sc) == IF i > j THEN 0 ELSE sc.gap[q[i]] + GapSum(q, i + 1, j, sc)   \* items i..j skipped
RECURSIVE PairSum(_, _, _, _, _)
PairSum(P, k, p, q, sc) == IF k > Len(P) THEN 0 ELSE sc.sim[p[P[k][1]]][q[P[k][2]]] + PairSum(P, k + 1, p, q, sc)
RECURSIVE Between(_, _, _, _, _)
Between(P, k, p, q, sc) == IF k >= Len(P) THEN 0
    ELSE GapSum(p, P[k][1] + 1, P[k + 1][1] - 1, sc) + GapSum(q, P[k][2] + 1, P[k + 1][2] - 1, sc) + Between(P, k + 1, p, q, sc)
LocalScore(P, p, q, sc) == PairSum(P, 1, p, q, sc) + Between(P, 1, p, q, sc)
GlobalScore(P, p, q, sc) ==
    IF P = <<>> THEN GapSum(p, 1, Len(p), sc) + GapSum(q, 1, Len(q), sc)
    ELSE LocalScore(P, p, q, sc) + GapSum(p, 1, P[1][1] - 1, sc) + GapSum(q, 1, P[1][2] - 1, sc)
         + GapSum(p, P[Len(P)][1] + 1, Len(p), sc) + GapSum(q, P[Len(P)][2] + 1, Len(q), sc)

\* local tables when some pairs may not be used: their entries are zero
RECURSIVE RowUsed(_, _, _, _, _, _, _, _)
RowUsed(x, i, q, prev, j, acc, sc, used) ==
    IF j > Len(q) THEN acc
    ELSE LET best == IF <<i, j>> \in used THEN 0
                     ELSE Max2(0, Max2(Max2(prev[j + 1] + sc.gap[x], acc[j] + sc.gap[q[j]]), prev[j] + sc.sim[x][q[j]]))
         IN RowUsed(x, i, q, prev, j + 1, Append(acc, best), sc, used)
RECURSIVE RowsUsed(_, _, _, _, _, _)
RowsUsed(p, q, i, acc, sc, used) ==
    IF i > Len(p) THEN acc ELSE RowsUsed(p, q, i + 1, Append(acc, RowUsed(p[i], i, q, acc[i], 1, <<0>>, sc, used)), sc, used)
LocalUsed(p, q, sc, used) == RowsUsed(p, q, 1, <<[j \in 1..(Len(q) + 1) |-> 0]>>, sc, used)

\* ---- model: two sequences grow item by item
Sc(m) == [sim |-> [x \in Items |-> [y \in Items |-> IF x = y THEN m[1] ELSE m[2]]],
          gap |-> [x \in Items |-> IF x = CHOOSE z \in Items : TRUE THEN m[3] ELSE m[4]]]
Init == a = <<>> /\ b = <<>> /\ par \in Params /\ hist = <<>>
Grow == \/ Len(a) < MaxLen /\ b = <<>> /\ \E x \in Items : a' = Append(a, x) /\ b' = b
        \/ Len(b) < MaxLen /\ \E x \in Items : b' = Append(b, x) /\ a' = a
Next == Grow /\ par' = par /\ hist' = [a |-> a', b |-> b', sim |-> Sc(par).sim, gap |-> Sc(par).gap]
Spec == Init /\ [][Next]_gvars
View == <<a, b, par>>
Emit == PrintT("PLAN " \o ToJson(hist'))

MCParams == {<<2, -1, -1, -2>>, <<1, 0, 0, -1>>, <<1, 1, -1, -1>>, <<-1, 2, -2, -1>>}

\* ---- laws
Paths == {P \in UNION {[1..n -> (1..Len(a)) \X (1..Len(b))] : n \in 0..Min2(Len(a), Len(b))} : Increasing(P)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
GlobalIsBest == GlobalBest(a, b, Sc(par)) = MaxOf({GlobalScore(P, a, b, Sc(par)) : P \in Paths})
LocalIsBest == LocalBest(Local(a, b, Sc(par))) = MaxOf({LocalScore(P, a, b, Sc(par)) : P \in Paths} \cup {0})
Flip(P) == [k \in 1..Len(P) |-> <<P[k][2], P[k][1]>>]
Mirror == GlobalBest(a, b, Sc(par)) = GlobalBest(b, a, Sc(par)) /\ LocalBest(Local(a, b, Sc(par))) = LocalBest(Local(b, a, Sc(par)))
AtLeast == LocalBest(Local(a, b, Sc(par))) >= GlobalBest(a, b, Sc(par))
UsedLess == \A i \in 1..Len(a), j \in 1..Len(b) :
                LocalBest(LocalUsed(a, b, Sc(par), {<<i, j>>})) <= LocalBest(Local(a, b, Sc(par)))
UsedNone == LocalUsed(a, b, Sc(par), {}) = Local(a, b, Sc(par))
=============================================================================
