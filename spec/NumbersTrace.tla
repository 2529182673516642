---------------------------- MODULE NumbersTrace ----------------------------
(* Judges recorded number words against Numbers.tla. *)
EXTENDS TraceBase
M == INSTANCE Numbers WITH Groups <- {}, MaxGroups <- 0, num <- st, pref <- st, hist <- ti
TrStart(ev) == ev.obs
If(c, n) == IF c THEN {} ELSE {n}
TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
          If(\A k \in 1..Len(ev.res) : ev.res[k] = M!Text(ev.nums[k], ev.pref), "spelling")
          \cup If(s.printed = "", "printed when imported"))
TrAfter(s, ev) == s
=============================================================================
