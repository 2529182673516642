---------------------------- MODULE CmdLineTrace ----------------------------
(* Judges what parsers made of recorded command lines against CmdLine.tla. *)
EXTENDS TraceBase
C == INSTANCE CmdLine WITH Depth <- 0, pn <- 0, line <- <<>>, s <- st, prev <- ti
TrStart(ev) == [args |-> ev.params.p.args, n |-> 0,
                groups |-> [j \in 1..Len(ev.params.p.groups) |-> [ms |-> ToSet(ev.params.p.groups[j].ms), req |-> ev.params.p.groups[j].req]]]
If(x, n) == IF x THEN {} ELSE {n}
TrFailing(p, ev) ==
    LET r == TLCEval(C!Read(p, ev.line)) IN
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
          If(ev.out = r.out, "understood as " \o ev.out \o ", expected " \o r.out)
          \cup (IF ev.out # r.out THEN {} ELSE
                If(ev.out = "ok" => ev.ns = r.ns, "values")
                \cup If(ev.shown, IF ev.out = "ok" THEN "says something" ELSE "text of " \o ev.out)))
TrAfter(p, ev) == p
=============================================================================
