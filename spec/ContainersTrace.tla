-------------------------- MODULE ContainersTrace --------------------------
(* Judges recorded histories of counters and ordered dictionaries against Containers.tla. *)
EXTENDS TraceBase
C == INSTANCE Containers WITH Items <- {}, Depth <- 0, Kind <- "", s <- st, prev <- st, hist <- ti
TrStart(ev) == [bag |-> <<>>, od |-> <<>>]
If(x, n) == IF x THEN {} ELSE {n}
BagOk(f, q) == Len(q) = Cardinality(DOMAIN f) /\ {q[i].k : i \in 1..Len(q)} = DOMAIN f /\ \A i \in 1..Len(q) : q[i].n = f[q[i].k]
KSeq(d) == [i \in 1..Len(d) |-> d[i].k]
VSeq(d) == [i \in 1..Len(d) |-> d[i].v]
DictBad(d, o) ==
    If(o.len = Len(d), "length")
    \cup If(o.keys = KSeq(d) /\ o.iter = KSeq(d) /\ o.iterkeys = KSeq(d), "order of the keys")
    \cup If(o.values = VSeq(d) /\ o.itervalues = VSeq(d), "order of the values")
    \cup If(o.items = d /\ o.iteritems = d, "order of the items")
    \cup If(o.rev = Reverse(KSeq(d)), "reverse order")
    \cup If(o.view = KSeq(d) /\ o.viewv = VSeq(d) /\ o.viewi = d, "order of the views")
    \cup If({o.has[i] : i \in 1..Len(o.has)} = C!Ks(d), "membership")
    \cup If(o.kind, "type")
    \cup If(C!SameDict(o.plain, d), "as a plain dictionary")
Extra(s, ev) ==
    IF ev.op = "bmost" THEN If(C!MostCommon(s.bag[ev.b], ev.n, ev.list), "most common")
    ELSE IF ev.op = "belements" THEN If(C!IsElements(s.bag[ev.b], ev.list), "elements") ELSE {}
TrFailing(s, ev) ==
    LET d == C!Do(s, ev) IN
    If((d.r.t = "any" /\ ev.res.t \in {"ok", "bool"}) \/ (ev.res.t = d.r.t /\ ev.res.v = d.r.v), "result of " \o ev.op)
    \cup Extra(s, ev)
    \cup UNION {If(BagOk(d.s.bag[ev.bags[i].name], ev.bags[i].c), "counts") \cup If(ev.bags[i].kind, "type of a counter") : i \in 1..Len(ev.bags)}
    \cup UNION {DictBad(d.s.od[ev.ods[i].name], ev.ods[i]) : i \in 1..Len(ev.ods)}
    \cup If({ev.bags[i].name : i \in 1..Len(ev.bags)} = DOMAIN d.s.bag /\ {ev.ods[i].name : i \in 1..Len(ev.ods)} = DOMAIN d.s.od, "containers observed")
TrAfter(s, ev) == C!Do(s, ev).s
=============================================================================
