---------------------------- MODULE MunkresTrace ----------------------------
(* Judges recorded assignments against Munkres.tla. *)
EXTENDS TraceBase
M == INSTANCE Munkres WITH Shapes <- {}, Costs <- {}, Distinct <- FALSE, m <- st, C <- st, star <- st, prime <- st, rc <- st, cc <- st, pc <- st, steps <- ti
TrStart(ev) == ev.run
If(x, n) == IF x THEN {} ELSE {n}
Bad(x) ==
    If(~x.hang, "does not end")
    \cup (IF x.hang THEN {} ELSE
          If(x.exc = "", "operation failed")
          \cup (IF x.exc # "" THEN {} ELSE
               If(x.same, "the matrix given is changed")
               \cup If(M!Proper(x.m, x.q), "every row and column at most once, as many as possible")
               \cup (IF ~M!Proper(x.m, x.q) THEN {} ELSE
                     If(IF M!Size(x.m) <= 4 THEN M!Cost(x.m, x.q) = M!Best(x.m) ELSE M!NoGain(x.m, x.q), "lowest cost"))))
Invert(x) == /\ Len(x.inv) = Len(x.m)
             /\ \A i \in 1..Len(x.m) : Len(x.inv[i]) = Len(x.m[i]) /\ \A j \in 1..Len(x.m[i]) : x.inv[i][j] = x.top - x.m[i][j]
TrFailing(s, ev) ==
    IF ev.op = "invert" THEN If(ev.exc = "" /\ Invert(ev), "cost matrix of a profit matrix")
    ELSE IF ev.op = "print" THEN If(ev.exc = "" /\ ev.shown = ev.m, "matrix printed")
    ELSE UNION {Bad(ev.res[k]) : k \in 1..Len(ev.res)}
TrAfter(s, ev) == s
=============================================================================
