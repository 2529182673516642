---------------------------- MODULE SeqDistTrace ----------------------------
(* Judges recorded distances, common subsequences and medians against SeqDist.tla.
   Real numbers are in units of 1/10000. *)
EXTENDS TraceBase
M == INSTANCE SeqDist WITH Items <- {}, MaxLen <- 0, Width <- 0, seqs <- st, hist <- ti
S == INSTANCE Sim WITH Items <- {}, MaxLen <- 0, Width <- 0, seqs <- st, hist <- ti

TrStart(ev) == Nil
If(c, n) == IF c THEN {} ELSE {n}
Form(ka, kb) == IF ka \in {"str", "unicode"} /\ kb \in {"str", "unicode"} THEN "string" ELSE IF ka = "tuple" /\ kb = "tuple" THEN "tuple" ELSE "list"
DistBad(ev) ==
    LET d == M!Lev(ev.a, ev.b) IN
    If(ev.dist = d, "distance") \cup If(ev.back = d, "distance the other way around")
    \cup If(S!Near(ev.norm, S!Frac(d, M!Max2(Len(ev.a), Len(ev.b)), 10000), 1), "normalized distance")
LcsBad(ev) ==
    LET n == M!LcsLen(ev.a, ev.b) IN
    If(Len(ev.res) = n, "length of the common subsequence")
    \cup If(M!IsSub(ev.res, ev.a) /\ M!IsSub(ev.res, ev.b), "common subsequence")
    \cup If(ev.form = Form(ev.ka, ev.kb), "type of the common subsequence")
    \cup If(S!RootOk(ev.norm, n, Len(ev.a) * Len(ev.b), 1000), "normalized length")
MedianBad(ev) ==
    LET n == Len(ev.strings)
        d == [i \in 1..n |-> [j \in 1..n |->
                 LET x == ev.strings[i]  y == ev.strings[j] IN
                 CASE ev.dist = "lev" -> M!Lev(x, y)
                   [] ev.dist = "lcs" -> Len(x) + Len(y) - 2 * M!LcsLen(x, y)
                   [] ev.dist = "len" -> M!AbsDiff(Len(x), Len(y))]]
    IN If(ev.res \in {ev.strings[i] : i \in M!Medians(d, n)}, "median")
TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE If(ev.kept, "arguments changed") \cup
          CASE ev.op = "lev" -> DistBad(ev) [] ev.op = "lcs" -> LcsBad(ev) [] ev.op = "median" -> MedianBad(ev))
TrAfter(s, ev) == s
=============================================================================
