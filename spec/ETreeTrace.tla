---------------------------- MODULE ETreeTrace ----------------------------
(* Judges recorded histories of element trees against ETree.tla. *)
EXTENDS TraceBase
M == INSTANCE ETree WITH Objs <- {}, Tags <- {}, Texts <- {}, Attrs <- {}, MaxNodes <- 0, MaxLen <- 0, heap <- st, hist <- ti

TrStart(ev) == [o \in ToSet(ev.params.objs) |-> M!El("r")]
If(c, n) == IF c THEN {} ELSE {n}
TrFailing(s, ev) ==
    LET t == M!Apply(s, ev) IN
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
          If(DOMAIN ev.trees = DOMAIN t /\ \A o \in DOMAIN t : ev.trees[o] = t[o],
             CASE ev.op = "indent" -> "indented tree" [] ev.op = "file" -> "tree read from the file written" [] OTHER -> "tree")
          \cup If(ev.op = "file" => ev.decl, "declaration of the file")
          \cup If(ev.op = "file" => ev.open, "file handle")
          \cup If(\A k \in 1..Len(ev.eq) : ev.eq[k][3] = M!Same(t[ev.eq[k][1]], t[ev.eq[k][2]]), "equality of elements"))
TrAfter(s, ev) == M!Apply(s, ev)
=============================================================================
