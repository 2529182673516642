---------------------------- MODULE OGraphTrace ----------------------------
EXTENDS TraceBase
M == INSTANCE OGraph WITH NodeNames <- {}, MaxDepth <- 0, Kind <- "o", gs <- st, hist <- ti
TrStart(ev) == <<>>
A(q) == {<<q[k][1], q[k][2]>> : k \in 1..Len(q)}
Es(q) == [k \in 1..Len(q) |-> <<q[k][1], q[k][2], A(q[k][3])>>]
\* an event as an operation of the specification
OpOf(ev) == [k \in DOMAIN ev |-> IF k = "at" THEN A(ev.at) ELSE IF k = "es" THEN Es(ev.es) ELSE ev[k]]

Pairs(q) == [k \in 1..Len(q) |-> <<q[k][1], q[k][2]>>]
Adj(q, F(_)) == \A k \in 1..Len(q) : q[k].l = F(q[k].n)
GBad(g, ob) ==
    (IF ob.nodes = g.nodes /\ ob.iter = g.nodes THEN {} ELSE {"nodes in order of insertion"})
    \cup (IF {<<ob.na[k].n, A(ob.na[k].at)>> : k \in 1..Len(ob.na)} = {<<n, g.na[n]>> : n \in DOMAIN g.na}
          THEN {} ELSE {"attributes of nodes"})
    \cup (IF ob.nn = Len(g.nodes) /\ ob.len = Len(g.nodes) /\ ob.ne = Len(g.es) THEN {} ELSE {"number of nodes and edges"})
    \cup (IF Pairs(ob.edges) = M!Edges(g) THEN {} ELSE {"edges in order of insertion"})
    \cup (IF Pairs(ob.inedges) = M!InEdges(g) THEN {} ELSE {"incoming edges in order of insertion"})
    \cup (IF ToSet(Pairs(ob.edges)) = DOMAIN g.ea =>
             \A k \in 1..Len(ob.edges) : A(ob.edges[k][3]) = g.ea[<<ob.edges[k][1], ob.edges[k][2]>>]
          THEN {} ELSE {"attributes of edges"})
    \cup (IF Len(ob.succ) = Len(g.nodes) /\ Adj(ob.succ, LAMBDA n : M!Succ(g, n)) THEN {} ELSE {"successors in order of insertion"})
    \cup (IF Len(ob.pred) = Len(g.nodes) /\ Adj(ob.pred, LAMBDA n : M!Pred(g, n)) THEN {} ELSE {"predecessors in order of insertion"})
    \cup (IF A(ob.ga) = g.ga THEN {} ELSE {"attributes of the graph"})
    \cup (IF g.kind = "d" =>
             /\ ob.id = g.id /\ ob.root = g.root
             /\ {<<ob.tk[k].n, ob.tk[k].t>> : k \in 1..Len(ob.tk)} = {<<n, g.tk[n]>> : n \in DOMAIN g.tk}
             /\ (g.hastoks => ob.toks = g.toks) /\ ob.hastoks = g.hastoks
          THEN {} ELSE {"id, root and tokens"})
QBad(g, q) ==
    (IF \A k \in 1..Len(q.terms) : q.terms[k].l = M!Terminals(g, q.terms[k].p, q.terms[k].e) THEN {} ELSE {"terminals"})
    \cup (IF q.nonterms = M!NonTerminals(g) THEN {} ELSE {"non-terminals"})
    \cup (IF \A k \in 1..Len(q.yields) :
               q.yields[k].l = M!Yield(g, IF q.yields[k].n = "None" THEN g.root ELSE q.yields[k].n, q.yields[k].p, q.yields[k].e)
          THEN {} ELSE {"terminal yield"})
    \cup (IF \A k \in 1..Len(q.cls) : LET c == q.cls[k] IN
               /\ c.punct = M!IsPunct(g, c.n) /\ c.empty = M!IsEmpty(g, c.n) /\ c.nont = ~M!IsLeaf(g, c.n)
               /\ c.term = M!IsTerm(g, c.n, c.p, c.e)
          THEN {} ELSE {"classification of nodes"})
    \cup (IF \A k \in 1..Len(q.strs) : q.strs[k].s = M!Join(g.tk[q.strs[k].n]) /\ q.strs[k].t = g.tk[q.strs[k].n]
          THEN {} ELSE {"token strings of nodes"})
    \cup (IF g.hastoks => q.gstr = M!Join(g.toks) THEN {} ELSE {"token string of the graph"})

TrFailing(s, ev) ==
    LET op == OpOf(ev)
        x == IF ev.op = "new" THEN "" ELSE M!Exc(s, op)
    IN IF ev.exc # x THEN {IF x = "" THEN "operation failed: " \o ev.exc ELSE "operation must fail with " \o x \o ", not " \o ev.exc}
       ELSE LET t == M!Apply(s, op) IN
            (IF "obs" \in DOMAIN ev THEN UNION {GBad(t[ev.obs[k].name], ev.obs[k]) : k \in 1..Len(ev.obs)} ELSE {})
            \cup (IF "qs" \in DOMAIN ev THEN UNION {QBad(t[ev.qs[k].name], ev.qs[k]) : k \in 1..Len(ev.qs)} ELSE {})
TrAfter(s, ev) == M!Apply(s, OpOf(ev))
=============================================================================
