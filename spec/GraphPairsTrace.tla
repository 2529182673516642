--------------------------- MODULE GraphPairsTrace ---------------------------
(* Judges recorded histories of real graph pairs against GraphPairs!Apply. *)
EXTENDS TraceBase

M == INSTANCE GraphPairs WITH Kinds <- {}, SNodes <- {}, TNodes <- {}, Rels <- {}, Objs <- {},
                              Metas <- {}, Banks <- {}, MaxLen <- 0, heap <- st, hist <- ti

Triples(q) == {<<q[k][1], q[k][2], q[k][3]>> : k \in 1..Len(q)}

TrStart(ev) == <<>>

\* observation of one object, compared with its abstract value x
ObsBad(x, ob) ==
    (IF Triples(ob.al) = x.al /\ Len(ob.al) = Cardinality(x.al) THEN {} ELSE {"alignments listed"})
    \cup (IF ob.len = Cardinality(x.al) THEN {} ELSE {"number of alignments"})
    \cup (IF <<ob.sb, ob.tb>> = <<x.sb, x.tb>> THEN {} ELSE {"graphbanks"})
    \cup (IF <<ob.sg, ob.tg>> = <<x.sg, x.tg>> THEN {} ELSE {"graphs"})
    \cup (IF <<ob.sbo, ob.tbo, ob.gv>> = x.own THEN {} ELSE {"graphbanks and graphs shared"})
    \cup (IF ob.meta = x.meta THEN {} ELSE {"meta-data"})
    \cup (IF \A k \in 1..Len(ob.get) : ob.get[k][3] = M!Rel(x.al, ob.get[k][1], ob.get[k][2])
          THEN {} ELSE {"relation of a node pair"})
    \cup (IF \A k \in 1..Len(ob.tgt) :
                ob.tgt[k][2] = (IF M!TargetsOf(x.al, ob.tgt[k][1]) = {} THEN "None"
                                ELSE CHOOSE t \in M!TargetsOf(x.al, ob.tgt[k][1]) : TRUE)
          THEN {} ELSE {"partner of a source node"})
    \cup (IF \A k \in 1..Len(ob.src) :
                ob.src[k][2] = (IF M!SourcesOf(x.al, ob.src[k][1]) = {} THEN "None"
                                ELSE CHOOSE s \in M!SourcesOf(x.al, ob.src[k][1]) : TRUE)
          THEN {} ELSE {"partner of a target node"})
    \cup (IF \A k \in 1..Len(ob.filt) :
                /\ Triples(ob.filt[k].al) = M!Filter(x.al, ToSet(ob.filt[k].rels))
                /\ Len(ob.filt[k].al) = Cardinality(M!Filter(x.al, ToSet(ob.filt[k].rels)))
          THEN {} ELSE {"alignments filtered by relation"})
    \cup (IF ob.roots = M!Linked(x.al, ob.sroot, ob.troot) THEN {} ELSE {"roots aligned"})
    \cup (IF ToSet(ob.nodes) = M!NodesOf(x.al) THEN {} ELSE {"unaligned nodes linger"})

EqBad(h, q) == {<<k>> : k \in {k \in 1..Len(q) :
                  LET x == h[q[k].o]  y == h[q[k].p] IN
                  IF x.kind = y.kind THEN LET e == M!EqObj(x, y) IN ~(q[k].eq = e /\ q[k].ne = ~e)
                  \* between a mapping and a matching: never equal if the contents differ
                  ELSE q[k].ne = q[k].eq \/ (q[k].eq /\ ~M!EqObj(x, [y EXCEPT !.kind = x.kind]))}}

\* graphbanks are the same if their files are
BanksBad(h, q) == {<<k>> : k \in {k \in 1..Len(q) :
                  LET x == h[q[k].o]  y == h[q[k].p]
                      e == x.sb = y.sb /\ x.tb = y.tb
                      f == x.sb = y.tb IN
                  q[k].banks # <<e, ~e, f, ~f>>}}

TrFailing(h, ev) ==
    LET r == M!Apply(h, ev) IN
    (IF (ev.exc = "") = r.ok THEN {} ELSE {IF r.ok THEN "operation failed" ELSE "operation should have failed"})
    \cup (IF "obs" \in DOMAIN ev
          THEN UNION {ObsBad(r.heap[ev.obs[k].o], ev.obs[k]) : k \in 1..Len(ev.obs)}
          ELSE {})
    \cup (IF "eqs" \in DOMAIN ev
          THEN (IF EqBad(r.heap, ev.eqs) = {} THEN {} ELSE {"equality/inequality"}) \cup (IF BanksBad(r.heap, ev.eqs) = {} THEN {} ELSE {"equality/inequality of graphbanks"})
          ELSE {})
TrAfter(h, ev) == M!Apply(h, ev).heap
=============================================================================
