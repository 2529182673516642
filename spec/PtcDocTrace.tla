---------------------------- MODULE PtcDocTrace ----------------------------
(* Judges recorded histories of parallel text documents against PtcDoc!Apply. *)
EXTENDS TraceBase

M == INSTANCE PtcDoc WITH FTree <- <<>>, TTree <- <<>>, Files <- {}, MaxLen <- 0, s <- st, hist <- ti

TrStart(ev) == [f |-> ev.params.from, t |-> ev.params.to, x |-> M!Start0(ev.params.from, ev.params.to)]
If(c, n) == IF c THEN {} ELSE {n}
DocBad(d, o, lab) ==
    If(o.fn = d.fn, "names of the texts" \o lab)
    \cup If(o.method = d.method, "alignment method" \o lab)
    \cup If(o.links = d.links, "links" \o lab)
    \cup UNION {LET es == d.elems[s]  q == o.elems[s] IN
        If(q.tags = [k \in 1..Len(es) |-> es[k].tag], "tags of the texts" \o lab)
        \cup If(\A a \in {"ignore", "skip", "newline", "blankline", "uniq"} :
                   q[a] = LET w == SelectSeq(es, LAMBDA e : e[a] = "True") IN [k \in 1..Len(w) |-> w[k].tag], "settings of tags" \o lab)
        \cup If(q.proots = q.uniq, "candidate roots" \o lab)
        \cup If(o.root[s] = d.root[s], "root" \o lab) : s \in {"from", "to"}}

TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
      IF ev.op = "find" THEN If(ev.found = M!Found(ev.given, ev.here), "text found") ELSE
      IF "obs" \notin DOMAIN ev THEN {} ELSE
      LET r == M!Apply(s.x, ev, s.f, s.t) IN
      DocBad(r.doc, ev.obs.doc, "")
      \cup (IF r.on /\ ev.obs.on THEN If(ev.obs.af = r.af, "alignments of source elements") \cup If(ev.obs.at = r.at, "alignments of target elements") ELSE If(r.on = ev.obs.on, "texts loaded"))
      \cup UNION {DocBad(r.disk[ev.disk[k].file], ev.disk[k].doc, " on disk") : k \in 1..Len(ev.disk)}
      \cup If({ev.disk[k].file : k \in 1..Len(ev.disk)} = DOMAIN r.disk, "documents on disk"))
TrAfter(s, ev) == IF ev.op = "find" THEN s ELSE [s EXCEPT !.x = M!Apply(s.x, ev, s.f, s.t)]
=============================================================================
