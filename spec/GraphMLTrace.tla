---------------------------- MODULE GraphMLTrace ----------------------------
EXTENDS TraceBase
M == INSTANCE GraphML WITH MaxItems <- 0, NGraphs <- 0, doc <- st, sparse <- FALSE, wanted <- {}, ps <- st, pos <- ti
TrStart(ev) == <<>>
A(q) == {<<q[k][1], q[k][2]>> : k \in 1..Len(q)}
Named(at) == at \cup (IF \E a \in at : a[1] = "name" THEN {} ELSE {<<"name", "">>})
\* edges as listed by a graph: by node, then in order of insertion
Edges(g) == M!Cat([k \in 1..Len(g.nodes) |-> SelectSeq(g.es, LAMBDA e : e[1] = g.nodes[k])])
GBad(g, ob) ==
    (IF ob.nodes = g.nodes THEN {} ELSE {"nodes in document order"})
    \cup (IF {<<ob.na[k].n, A(ob.na[k].at)>> : k \in 1..Len(ob.na)} = g.na THEN {} ELSE {"attributes of nodes"})
    \cup (IF {<<ob.tk[k].n, ob.tk[k].t>> : k \in 1..Len(ob.tk)} = g.tk THEN {} ELSE {"tokens of nodes"})
    \cup (IF [k \in 1..Len(ob.edges) |-> <<ob.edges[k][1], ob.edges[k][2]>>] = Edges(g) THEN {} ELSE {"edges"})
    \cup (IF {<<ob.edges[k][1], ob.edges[k][2], {a \in A(ob.edges[k][3]) : a # <<"label", "None">>}>> : k \in 1..Len(ob.edges)} = g.ea
          THEN {} ELSE {"attributes of edges"})
    \cup (IF Named(A(ob.ga)) = Named(g.ga) THEN {} ELSE {"attributes of the graph"})
    \cup (IF ob.toks = g.toks THEN {} ELSE {"tokens of the graph"})
    \cup (IF ob.root = g.root THEN {} ELSE {"root"})
TrFailing(s, ev) ==
    LET d == M!Denote(ev.doc, ev.sparse, {ev.wanted[k] : k \in 1..Len(ev.wanted)}) IN
    IF ~d.ok THEN IF ev.exc = "DaesoError" THEN {} ELSE {"document must be refused, not: " \o ev.exc}
    ELSE IF ev.exc # "" THEN {"parsing failed: " \o ev.exc}
    ELSE (IF {ev.ids[k] : k \in 1..Len(ev.ids)} = {g.id : g \in d.graphs} /\ Len(ev.ids) = Cardinality(d.graphs)
             /\ Len(ev.obs) = Len(ev.ids) THEN {} ELSE {"the graphs"})
         \cup UNION {LET ob == ev.obs[k]
                         gs == {g \in d.graphs : g.id = ob.id} IN
                     IF gs = {} THEN {"a graph of that id"} ELSE GBad(CHOOSE g \in gs : TRUE, ob) : k \in 1..Len(ev.obs)}
TrAfter(s, ev) == s
=============================================================================
