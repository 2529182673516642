----------------------------- MODULE FilesTrace -----------------------------
(* Judges recorded histories of directories and file patterns against Files.tla. *)
EXTENDS TraceBase
F == INSTANCE Files WITH Names <- {}, Patterns <- {}, Depth <- 0, fs <- st, prev <- ti, hist <- ti
TrStart(ev) == <<>>
If(x, n) == IF x THEN {} ELSE {n}
TrFailing(s, ev) ==
    LET d == TLCEval(F!Do(s, ev)) IN
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
          If(ev.res = d.r, "result of " \o ev.op)
          \cup If({<<ev.tree[j].p, ev.tree[j].t>> : j \in 1..Len(ev.tree)} = {<<p, d.s[p]>> : p \in DOMAIN d.s}, "files and directories"))
TrAfter(s, ev) == F!Do(s, ev).s
=============================================================================
