--------------------------- MODULE ElemTreeTrace ---------------------------
(* Judges recorded updates of index element trees against ElemTree.tla. *)
EXTENDS TraceBase

M == INSTANCE ElemTree WITH Tags <- {}, Texts <- {}, Tails <- {}, MaxNodes <- 0, tree <- st, hist <- ti

TrStart(ev) == ev.params.tree
If(c, n) == IF c THEN {} ELSE {n}
TrFailing(t, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
      LET cfg == [ignore |-> ToSet(ev.ignore), newline |-> ToSet(ev.newline), blank |-> ToSet(ev.blank)]
          ix == M!Index(t, cfg)
          n == Len(t)
          o == ev.obs IN
      IF Len(o) # n THEN {"number of elements"} ELSE
      If(ev.text = ix.text, "text")
      \cup If(\A k \in 1..n : <<o[k].s, o[k].e>> = ix.spans[k], "spans")
      \cup If(\A k \in 1..n : o[k].text = M!TextOf(ix, k), "text of an element")
      \cup If(\A k \in 1..n : o[k].ign = M!Ignored(t, cfg, k), "ignored elements")
      \cup If(\A k \in 1..n : o[k].n = M!Nth(t, k), "element numbers")
      \cup If(\A k \in 1..n : o[k].al = 0, "alignments after update")
      \cup If(\A k \in 1..Len(ev.tags) : ev.tags[k][2] = M!Tagged(t, ev.tags[k][1]), "elements of a tag")
      \cup If({ev.tags[k][1] : k \in 1..Len(ev.tags)} = {t[k].tag : k \in 1..n}, "tags")
      \cup If(\A k \in 1..Len(ev.ids) : ev.ids[k][3] = M!WithId(t, ev.ids[k][1], ev.ids[k][2]), "element with an id")
      \cup If({<<ev.ids[k][1], ev.ids[k][2]>> : k \in 1..Len(ev.ids)} = {<<t[k].tag, t[k].id>> : k \in 1..n}, "ids"))
TrAfter(t, ev) == t
=============================================================================
