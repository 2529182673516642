----------------------------- MODULE TextAlign -----------------------------
(* Automatic alignment of parallel texts (daeso.ptc.textalign).  FT, TT: the
   texts (see ElemTree); links: set or sequence of pairs of elements.
   conf: focus |-> <<tag, tag>>, scope |-> <<set, set>> (empty: the roots),
         ignore |-> <<set, set>>, clear. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS FTree, TTree, Scores, MaxLinks
VARIABLES links, score, thr, hist
avars == <<links, score, thr, hist>>

E == INSTANCE ElemTree WITH Tags <- {}, Texts <- {}, Tails <- {}, MaxNodes <- 0, tree <- <<>>, hist <- <<>>

Cfg(ign) == [ignore |-> ign, newline |-> {}, blank |-> {}]
\* elements eligible for alignment inside scope element k, in document order
Focus(t, tag, ign, k) == SelectSeq([j \in 1..Len(t) |-> j], LAMBDA j : j > k /\ j <= E!Last(t, k) /\ t[j].tag = tag /\ ~E!Ignored(t, Cfg(ign), j))
Involves(p, ft, tt, conf) == ft[p[1]].tag = conf.focus[1] \/ tt[p[2]].tag = conf.focus[2]
Kept(ls, ft, tt, conf) == IF conf.clear THEN SelectSeq(ls, LAMBDA p : ~Involves(p, ft, tt, conf)) ELSE ls
NoScope(conf) == conf.scope[1] = {} /\ conf.scope[2] = {}
ScopeTags(conf, ft, tt) == IF NoScope(conf) THEN <<{ft[1].tag}, {tt[1].tag}>> ELSE conf.scope
\* the links to start from: when no scope is given the roots are aligned (only) to each other
Start(ls, ft, tt, conf) == LET k == Kept(ls, ft, tt, conf) IN
    IF NoScope(conf) THEN <<<<1, 1>>>> \o SelectSeq(k, LAMBDA p : p[1] # 1) ELSE k
\* scope pairs, in document order of the source (and in order of links)
RECURSIVE ScopesFrom(_, _, _, _, _)
ScopesFrom(i, ls, ft, tt, st) ==
    IF i > Len(ft) THEN <<>>
    ELSE SelectSeq(ls, LAMBDA p : p[1] = i /\ ft[p[1]].tag \in st[1] /\ tt[p[2]].tag \in st[2]) \o ScopesFrom(i + 1, ls, ft, tt, st)
Scopes(ls, ft, tt, conf) == ScopesFrom(1, Start(ls, ft, tt, conf), ft, tt, ScopeTags(conf, ft, tt))
Cands(p, ft, tt, conf) ==
    LET a == Focus(ft, conf.focus[1], conf.ignore[1], p[1])
        b == Focus(tt, conf.focus[2], conf.ignore[2], p[2])
        n == Len(b) IN
    [k \in 1..(Len(a) * n) |-> <<a[((k - 1) \div n) + 1], b[((k - 1) % n) + 1]>>]

\* ---- filters: which selections R of the candidates C (with score sc) are right
Crosses(p, q, ft, tt) == LET i == E!Nth(ft, p[1])  j == E!Nth(tt, p[2])  k == E!Nth(ft, q[1])  l == E!Nth(tt, q[2]) IN
                         (i < k /\ j > l) \/ (i > k /\ j < l)
AllOk(C, R) == R = C
ThresholdOk(C, R, sc(_), th) == R = {p \in C : sc(p) > th}
\* greedy, best first; equal scores in any order
NoCrossOk(C, R, sc(_), th, ft, tt) ==
    /\ R \subseteq {p \in C : sc(p) >= th}
    /\ \A p, q \in R : ~Crosses(p, q, ft, tt)
    /\ \A p \in C \ R : sc(p) >= th => \E q \in R : sc(q) >= sc(p) /\ Crosses(p, q, ft, tt)
FilterOk(f, C, R, sc(_), th, ft, tt) ==
    CASE f = "none" -> AllOk(C, R)
      [] f = "threshold" -> ThresholdOk(C, R, sc, th)
      [] f = "nocross" -> NoCrossOk(C, R, sc, th, ft, tt)

\* ---- model: a small pair of texts; the greedy choice is explored for every order of equal scores
FT0 == <<[tag |-> "d", depth |-> 0, id |-> "", text |-> "", tail |-> ""], [tag |-> "s", depth |-> 1, id |-> "", text |-> "a", tail |-> ""],
         [tag |-> "s", depth |-> 1, id |-> "", text |-> "b", tail |-> ""]>>
TT0 == FT0
C0 == {<<i, j>> : i \in 2..3, j \in 2..3}
RECURSIVE Greedy(_, _, _, _, _)   \* set of possible outcomes
Greedy(C, R, sc, th, f) ==
    LET left == {p \in C : sc[p] >= th} IN
    IF left = {} THEN {R}
    ELSE LET best == {p \in left : \A q \in left : sc[q] <= sc[p]} IN
         UNION {Greedy(C \ {p}, IF \E q \in R : Crosses(p, q, FTree, TTree) THEN R ELSE R \cup {p}, sc, th, f) : p \in best}
Init == links = <<>> /\ thr = 0 /\ hist = <<>> /\ score = [p \in C0 |-> 0]
Pick == /\ hist = <<>>
        /\ \E f \in [C0 -> Scores], th \in Scores :
             /\ score' = f /\ thr' = th /\ links' = links
             /\ hist' = [scores |-> {<<p[1], p[2], f[p]>> : p \in C0}, th |-> th]
Next == Pick
Spec == Init /\ [][Next]_avars
View == <<score, thr, hist # <<>>>>
Emit == PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
Outcomes == Greedy(C0, {}, score, thr, 0)
GreedyIsOk == \A R \in SUBSET C0 : NoCrossOk(C0, R, LAMBDA p : score[p], thr, FTree, TTree) <=> R \in Outcomes
NeverEmpty == (\E p \in C0 : score[p] >= thr) => {} \notin Outcomes
BestIn == \A R \in Outcomes : (\E p \in C0 : score[p] >= thr) =>
             \E p \in R : \A q \in C0 : score[q] <= score[p]
=============================================================================
