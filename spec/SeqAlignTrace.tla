--------------------------- MODULE SeqAlignTrace ---------------------------
(* Judges recorded sequence alignments against SeqAlign.tla. *)
EXTENDS TraceBase
M == INSTANCE SeqAlign WITH Items <- {}, MaxLen <- 0, Params <- {}, a <- st, b <- st, par <- st, hist <- ti

TrStart(ev) == Nil
If(c, n) == IF c THEN {} ELSE {n}
One(P) == [k \in 1..Len(P) |-> <<P[k][1] + 1, P[k][2] + 1>>]
Sc(ev) == [sim |-> ev.sim, gap |-> ev.gap]
\* table: [i, j, score]
TableOk(t, T, a, b) ==
    /\ Len(t) = (Len(a) + 1) * (Len(b) + 1)
    /\ {<<t[k][1], t[k][2]>> : k \in 1..Len(t)} = (0..Len(a)) \X (0..Len(b))
    /\ \A k \in 1..Len(t) : t[k][1] \in 0..Len(a) /\ t[k][2] \in 0..Len(b) => t[k][3] = T[t[k][1] + 1][t[k][2] + 1]
\* the step recorded for a cell explains its score
StepsOk(q, T, ev) ==
    Len(q) = (Len(ev.a) + 1) * (Len(ev.b) + 1) /\
    \A k \in 1..Len(q) :
        LET i == q[k][1]  j == q[k][2]  x == T[i + 1][j + 1] IN
        \* (a local alignment does not extend beyond a cell scoring zero)
        IF ev.op = "local" /\ x = 0 THEN q[k][3] \in {"U", "L", "D", "T"} ELSE
        CASE q[k][3] = "U" -> i > 0 /\ x = T[i][j + 1] + ev.gap[ev.a[i]]
          [] q[k][3] = "L" -> j > 0 /\ x = T[i + 1][j] + ev.gap[ev.b[j]]
          [] q[k][3] = "D" -> i > 0 /\ j > 0 /\ x = T[i][j] + ev.sim[ev.a[i]][ev.b[j]]
          [] q[k][3] = "T" -> i = 0 /\ j = 0 /\ x = 0
          [] OTHER -> FALSE
\* printed matrices: title, column numbers, items and rows <<number, item, cells>>
Steps(q, i, j) == LET k == CHOOSE k \in 1..Len(q) : q[k][1] = i /\ q[k][2] = j IN q[k][3]
PrintBad(ev, T) ==
    LET n == Len(ev.a)  m == Len(ev.b)
        s == ev.printed.scores  p == ev.printed.pairs
        At(i, j) == <<i, j>> \in {<<ev.pairs[k][1] + 1, ev.pairs[k][2] + 1>> : k \in 1..Len(ev.pairs)} IN
    If(s.title = "SCORE MATRIX" /\ p.title = "ALIGNMENT" /\ s.nums = [j \in 1..(m + 1) |-> j - 1] /\ p.nums = [j \in 1..m |-> j - 1]
       /\ s.items = ev.b /\ p.items = ev.b, "columns of a printed matrix")
    \cup If(s.rows = [i \in 1..(n + 1) |-> <<i - 1, IF i = 1 THEN "" ELSE ev.a[i - 1],
                        [j \in 1..(m + 1) |-> ToString(T[i][j]) \o ":" \o Steps(ev.steps, i - 1, j - 1)]>>], "printed scores")
    \cup If(p.rows = [i \in 1..n |-> <<i - 1, ev.a[i], [j \in 1..m |-> IF At(i, j) THEN "x" ELSE "."]>>], "printed alignment")
SeenBad(ev, T) ==
    IF ~TableOk(ev.table, T, ev.a, ev.b) THEN {"score table"}
    ELSE IF ~StepsOk(ev.steps, T, ev) THEN {"steps of the score table"}
    ELSE IF "printed" \in DOMAIN ev THEN PrintBad(ev, T) ELSE {}
Path(P, ev) == M!InRange(P, ev.a, ev.b) /\ M!Increasing(P)
GlobalBad(ev) ==
    LET P == One(ev.pairs)  T == M!Global(ev.a, ev.b, Sc(ev)) IN
    SeenBad(ev, T)
    \cup (IF ~Path(P, ev) THEN {"alignment"} ELSE If(M!GlobalScore(P, ev.a, ev.b, Sc(ev)) = T[Len(ev.a) + 1][Len(ev.b) + 1], "best alignment"))
FirstBad(P, T, ev) ==
    IF ~Path(P, ev) THEN {"alignment"}
    ELSE If((P = <<>>) = (M!LocalBest(T) = 0), "empty alignment")
         \cup If(M!LocalScore(P, ev.a, ev.b, Sc(ev)) = M!LocalBest(T), "best alignment")
LocalBad(ev) ==
    LET T == M!Local(ev.a, ev.b, Sc(ev)) IN
    SeenBad(ev, T) \cup FirstBad(One(ev.pairs), T, ev)
RECURSIVE StrictFrom(_, _, _)
StrictFrom(ev, k, used) ==
    IF k > Len(ev.all) THEN {}
    ELSE LET P == One(ev.all[k])  T == M!LocalUsed(ev.a, ev.b, Sc(ev), used) IN
         If(ToSet(P) \cap used = {}, "pair aligned again")
         \cup If(M!LocalScore(P, ev.a, ev.b, Sc(ev)) = M!LocalBest(T), "not the best left")
         \cup StrictFrom(ev, k + 1, used \cup ToSet(P))
Negative(ev) == \A x \in ToSet(ev.a \o ev.b) : ev.gap[x] < 0
EggertBad(ev) ==
    LET T == M!Local(ev.a, ev.b, Sc(ev)) IN
    If(Len(ev.all) <= ev.limit, "limit")
    \cup If(Len(ev.tables) = Len(ev.all), "tables")
    \cup If((ev.all = <<>>) = (M!LocalBest(T) = 0), "alignments missing")
    \cup (IF ev.all = <<>> THEN {} ELSE
            If(TableOk(ev.tables[1], T, ev.a, ev.b), "score table") \cup FirstBad(One(ev.all[1]), T, ev)
            \cup (IF Negative(ev) /\ ev.all[1] # <<>> THEN
                    LET P == One(ev.all[1]) IN If(<<P[Len(P)][1] + 1, P[Len(P)][2] + 1>> = M!EndCell(T), "choice of the first alignment") ELSE {}))
    \cup (IF \E k \in 1..Len(ev.all) : ~Path(One(ev.all[k]), ev) THEN {"alignment"} ELSE
            IF ev.strict THEN StrictFrom(ev, 1, {})
                              \cup If(Len(ev.all) < ev.limit, "does not end")
                              \cup If(Len(ev.all) < ev.limit =>
                                       M!LocalBest(M!LocalUsed(ev.a, ev.b, Sc(ev), UNION {ToSet(One(ev.all[k])) : k \in 1..Len(ev.all)})) = 0, "alignments left")
            ELSE {})
    \cup If(ev.fewer = SubSeq(ev.all, 1, IF ev.less < Len(ev.all) THEN ev.less ELSE Len(ev.all)), "fewer alignments")
TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
          CASE ev.op = "global" -> GlobalBad(ev) [] ev.op = "local" -> LocalBad(ev) [] ev.op = "eggert" -> EggertBad(ev))
TrAfter(s, ev) == s
=============================================================================
