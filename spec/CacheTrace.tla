----------------------------- MODULE CacheTrace -----------------------------
(* Judges recorded runs of the generic cache, sequential and concurrent, against Cache.tla.
   A concurrent history is a list of operations with the moments of their call and return; it has to be
   explained by some order of the operations that respects these moments (linearizability). *)
EXTENDS TraceBase
C == INSTANCE Cache WITH Names <- {}, Limits <- {}, Lives <- {}, Depth <- 0, c <- st, prev <- st, conf <- st, hist <- ti
TrStart(ev) == C!Empty(ev.params.max, ev.params.exp, ev.params.dfail)
If(x, n) == IF x THEN {} ELSE {n}

Observed(ev, s) ==
    If(ev.size = Len(s.ent), "number of entries")
    \cup If(ev.size = ev.len, "len() and size()")
    \cup If(Len(ev.keys) = Len(s.ent) /\ {ev.keys[j] : j \in 1..Len(ev.keys)} = C!Keys(s), "keys")
    \cup If(\A j \in 1..Len(ev.has) : ev.has[j].yes = (ev.has[j].k \in C!Keys(s)), "membership")
TrFailing(s, ev) ==
    IF ev.op = "explore" THEN
        If(~ev.hang, "threads wait for each other or never end")
        \cup If(ev.errors = "", "operation failed in a thread: " \o ev.errors)
        \cup (IF ev.hang \/ ev.errors # "" THEN {} ELSE
              If(\A j \in 1..Len(ev.hs) : C!Lin(C!Seqn(s, ev.pre), ev.hs[j], 1..Len(ev.hs[j])),
                 "no sequential order explains the history"))
    ELSE LET d == C!Do(s, ev) IN
        If(~ev.hang, "does not end")
        \cup (IF ev.hang THEN {} ELSE
              If(ev.exc = "", "operation failed")
              \cup (IF ev.exc # "" THEN {} ELSE
                   If(ev.res = d.r, "result of " \o ev.op)
                   \cup If(ev.calls = d.s.calls, "generated once per miss")
                   \cup Observed(ev, d.s)))
TrAfter(s, ev) == IF ev.op = "explore" THEN s ELSE C!Do(s, ev).s
=============================================================================
