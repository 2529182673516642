------------------------------ MODULE GraphML ------------------------------
(* GraphML graphbanks: what a document denotes (Denote), and the streaming parser as a machine over the
   start/end events of the document (Consume), with its context, its key table and its current component.
   TLC checks that for every document the machine ends with exactly what the document denotes.

   A document is [keys, graphs]; a key is [id, for, name, hasdef, def]; a graph is [id, items]; an item is
   [t |-> "data", key, v], [t |-> "node", id, data] or [t |-> "edge", u, v, data].
   A value is [w, sep, pad]: words joined by sep and padded with pad (so that its tokens are known). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Rng(q) == {q[k] : k \in 1..Len(q)}
Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Has(at, k) == \E a \in at : a[1] = k
Put1(at, k, v) == {a \in at : a[1] # k} \cup {<<k, v>>}
Get(at, k) == (CHOOSE a \in at : a[1] = k)[2]
RECURSIVE JoinW(_, _)
JoinW(w, sep) == IF w = <<>> THEN "" ELSE IF Len(w) = 1 THEN w[1] ELSE w[1] \o sep \o JoinW(Tail(w), sep)
Str(v) == v.pad \o JoinW(v.w, v.sep) \o v.pad

\* ---------------------------------------------------------------- denotation
KeysOf(d, comp) == {k \in 1..Len(d.keys) : d.keys[k].for = comp}
\* the name a key id stands for on a component: the component's own key before the general one ("" if undefined)
Name(d, comp, id) ==
    LET own == {k \in KeysOf(d, comp) : d.keys[k].id = id}
        all == {k \in KeysOf(d, "all") : d.keys[k].id = id}
    IN IF own # {} THEN d.keys[CHOOSE k \in own : TRUE].name
       ELSE IF all # {} THEN d.keys[CHOOSE k \in all : TRUE].name ELSE ""
\* defaults: <<name, value>>, the component's own default before the general one
Defaults(d, comp) ==
    LET D(c) == {<<d.keys[k].name, d.keys[k].def>> : k \in {k \in KeysOf(d, c) : d.keys[k].hasdef}}
    IN D(comp) \cup {a \in D("all") : ~Has(D(comp), a[1])}
RECURSIVE Given(_, _, _, _)
Given(d, comp, at, data) == IF data = <<>> THEN at
    ELSE Given(d, comp, Put1(at, Name(d, comp, Head(data).key), Head(data).v), Tail(data))
Attrs(d, comp, data) == Given(d, comp, Defaults(d, comp), data)
Strs(at) == {<<a[1], Str(a[2])>> : a \in at}
Others(at) == Strs({a \in at : a[1] # "tokens"})
DataOf(g) == SelectSeq(g.items, LAMBDA i : i.t = "data")
NodesOf(g) == SelectSeq(g.items, LAMBDA i : i.t = "node")
EdgesOf(g) == SelectSeq(g.items, LAMBDA i : i.t = "edge")
Sound(d, g) ==
    /\ \A k \in 1..Len(g.items) :
          LET i == g.items[k]
              comp == IF i.t = "data" THEN "graph" ELSE i.t
              ds == IF i.t = "data" THEN <<i>> ELSE i.data
          IN \A j \in 1..Len(ds) : Name(d, comp, ds[j].key) # ""
    /\ Has(Attrs(d, "graph", DataOf(g)), "tokens")
    /\ \A i \in Rng(NodesOf(g)) : LET at == Attrs(d, "node", i.data) IN
          Has(at, "label") /\ Str(Get(at, "label")) # "" /\ Has(at, "tokens")
Graph(d, g) ==
    LET ga == Attrs(d, "graph", DataOf(g))
        ns == NodesOf(g)
        es == EdgesOf(g)
    IN [id |-> g.id, toks |-> Get(ga, "tokens").w, ga |-> Others(ga),
        root |-> IF Has(ga, "root") THEN Str(Get(ga, "root")) ELSE "None",
        nodes |-> [k \in 1..Len(ns) |-> ns[k].id],
        na |-> {<<ns[k].id, Others(Attrs(d, "node", ns[k].data))>> : k \in 1..Len(ns)},
        tk |-> {<<ns[k].id, Get(Attrs(d, "node", ns[k].data), "tokens").w>> : k \in 1..Len(ns)},
        es |-> [k \in 1..Len(es) |-> <<es[k].u, es[k].v>>],
        ea |-> {<<es[k].u, es[k].v, Strs(Attrs(d, "edge", es[k].data))>> : k \in 1..Len(es)}]
Ids(d) == {d.graphs[k].id : k \in 1..Len(d.graphs)}
\* graphs wanted: all of them, or a given set of ids (which must all be there)
Denote(d, sparse, wanted) ==
    LET W == IF sparse THEN wanted ELSE Ids(d)
        gs == {d.graphs[k] : k \in {k \in 1..Len(d.graphs) : d.graphs[k].id \in W}}
    IN IF (\E g \in gs : ~Sound(d, g)) \/ ~(W \subseteq Ids(d)) THEN [ok |-> FALSE, graphs |-> {}]
       ELSE [ok |-> TRUE, graphs |-> {Graph(d, g) : g \in gs}]

\* ---------------------------------------------------------------- streaming parser
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
DataEv(i) == << [e |-> "data+", key |-> i.key], [e |-> "data-", v |-> i.v] >>
ItemEv(i) == IF i.t = "data" THEN DataEv(i)
             ELSE IF i.t = "node" THEN <<[e |-> "node+", id |-> i.id]>> \o Cat([k \in 1..Len(i.data) |-> DataEv(i.data[k])]) \o <<[e |-> "node-"]>>
             ELSE <<[e |-> "edge+", u |-> i.u, v |-> i.v]>> \o Cat([k \in 1..Len(i.data) |-> DataEv(i.data[k])]) \o <<[e |-> "edge-"]>>
KeyEv(k) == <<[e |-> "key+", k |-> k]>> \o (IF k.hasdef THEN <<[e |-> "default-", v |-> k.def]>> ELSE <<>>) \o <<[e |-> "key-"]>>
GraphEv(g) == <<[e |-> "graph+", id |-> g.id]>> \o Cat([k \in 1..Len(g.items) |-> ItemEv(g.items[k])]) \o <<[e |-> "graph-"]>>
Events(d) == Cat([k \in 1..Len(d.keys) |-> KeyEv(d.keys[k])]) \o Cat([k \in 1..Len(d.graphs) |-> GraphEv(d.graphs[k])])

\* parser state: ctx (open elements), keys (key table so far), g (graph under construction or "none"),
\* comp/cid (component whose data is being read), key (pending key), out (finished graphs), err
NoG == [id |-> "", at |-> {}, nodes |-> <<>>, na |-> <<>>, es |-> <<>>, ea |-> <<>>]
P0 == [ctx |-> <<>>, keys |-> <<>>, on |-> FALSE, g |-> NoG, cid |-> <<>>, key |-> "", out |-> {}, err |-> FALSE]
Push(p, t) == [p EXCEPT !.ctx = Append(@, t)]
Pop(p) == [p EXCEPT !.ctx = SubSeq(@, 1, Len(@) - 1)]
Top(p) == IF p.ctx = <<>> THEN "" ELSE p.ctx[Len(p.ctx)]
Doc(p) == [keys |-> p.keys, graphs |-> <<>>]
Fin(p) ==
    LET g == p.g IN
    IF ~Has(g.at, "tokens") THEN [p EXCEPT !.err = TRUE]
    ELSE [p EXCEPT !.on = FALSE, !.out = @ \cup
          {[id |-> g.id, toks |-> Get(g.at, "tokens").w, ga |-> Others(g.at),
            root |-> IF Has(g.at, "root") THEN Str(Get(g.at, "root")) ELSE "None",
            nodes |-> g.nodes,
            na |-> {<<n, Others(g.na[n])>> : n \in DOMAIN g.na},
            tk |-> {<<n, Get(g.na[n], "tokens").w>> : n \in DOMAIN g.na},
            es |-> g.es, ea |-> {<<e[1], e[2], Strs(g.ea[e])>> : e \in DOMAIN g.ea}]}]
Step(p, ev, sparse, wanted) ==
    IF p.err THEN p ELSE
    CASE ev.e = "key+" -> Push([p EXCEPT !.keys = Append(@, [ev.k EXCEPT !.hasdef = FALSE])], "key")
      [] ev.e = "default-" -> [p EXCEPT !.keys[Len(p.keys)].hasdef = TRUE, !.keys[Len(p.keys)].def = ev.v]
      [] ev.e = "key-" -> Pop(p)
      [] ev.e = "graph+" -> IF sparse /\ ev.id \notin wanted THEN Push(p, "graph")
                            ELSE Push([p EXCEPT !.on = TRUE, !.g = [NoG EXCEPT !.id = ev.id, !.at = Defaults(Doc(p), "graph")]], "graph")
      [] ev.e = "graph-" -> IF p.on THEN Pop(Fin(p)) ELSE Pop(p)
      [] ev.e = "node+" -> IF ~p.on THEN Push(p, "node")
                           ELSE Push([p EXCEPT !.cid = <<ev.id>>, !.g.nodes = Append(@, ev.id),
                                               !.g.na = Upd(@, ev.id, Defaults(Doc(p), "node"))], "node")
      [] ev.e = "node-" -> IF ~p.on THEN Pop(p)
                           ELSE LET at == p.g.na[p.cid[1]] IN
                                IF ~(Has(at, "label") /\ Str(Get(at, "label")) # "" /\ Has(at, "tokens")) THEN [p EXCEPT !.err = TRUE]
                                ELSE Pop([p EXCEPT !.cid = <<>>])
      [] ev.e = "edge+" -> IF ~p.on THEN Push(p, "edge")
                           ELSE Push([p EXCEPT !.cid = <<ev.u, ev.v>>, !.g.es = Append(@, <<ev.u, ev.v>>),
                                               !.g.ea = Upd(@, <<ev.u, ev.v>>, Defaults(Doc(p), "edge"))], "edge")
      [] ev.e = "edge-" -> Pop([p EXCEPT !.cid = <<>>])
      [] ev.e = "data+" -> Push([p EXCEPT !.key = ev.key], "data")
      [] ev.e = "data-" -> IF ~p.on THEN Pop(p)
                           ELSE LET comp == p.ctx[Len(p.ctx) - 1]
                                    nm == Name(Doc(p), comp, p.key)
                                IN IF nm = "" THEN [p EXCEPT !.err = TRUE]
                                   ELSE Pop(IF comp = "graph" THEN [p EXCEPT !.g.at = Put1(@, nm, ev.v)]
                                            ELSE IF comp = "node" THEN [p EXCEPT !.g.na[p.cid[1]] = Put1(@, nm, ev.v)]
                                            ELSE [p EXCEPT !.g.ea[p.cid] = Put1(@, nm, ev.v)])
Result(p, sparse, wanted) == IF p.err \/ (sparse /\ ~(wanted \subseteq {g.id : g \in p.out}))
                             THEN [ok |-> FALSE, graphs |-> {}] ELSE [ok |-> TRUE, graphs |-> p.out]

\* ---------------------------------------------------------------- model: all small documents
CONSTANTS MaxItems, NGraphs
VARIABLES doc, sparse, wanted, ps, pos
vars == <<doc, sparse, wanted, ps, pos>>
V(w) == [w |-> w, sep |-> " ", pad |-> ""]
Key(id, for, name, def) == [id |-> id, for |-> for, name |-> name, hasdef |-> def # "", def |-> V(IF def = "" THEN <<>> ELSE <<def>>)]
KeyTables == { <<Key("l", "node", "label", "dl"), Key("t", "all", "tokens", "dt"), Key("r", "graph", "root", ""), Key("x", "edge", "l", "dx")>>,
               <<Key("l", "all", "label", "dl"), Key("t", "all", "tokens", ""), Key("r", "all", "root", "dr"), Key("x", "edge", "l", "")>>,
               <<Key("l", "all", "label", "da"), Key("l", "node", "label", "dn"), Key("t", "node", "tokens", "dt"), Key("t", "graph", "tokens", ""), Key("x", "all", "l", "dx"), Key("r", "graph", "root", "")>> }
Dat(k, v) == [t |-> "data", key |-> k, v |-> V(<<v>>)]
DataLists == { <<>>, <<Dat("l", "1")>>, <<Dat("x", "2")>>, <<Dat("t", "3"), Dat("l", "4")>> }
Items == {Dat("t", "5"), Dat("r", "6"), Dat("x", "7"), Dat("l", "8")}
         \cup {[t |-> "node", id |-> n, data |-> d] : n \in {"a", "b"}, d \in DataLists}
         \cup {[t |-> "edge", u |-> "a", v |-> n, data |-> d] : n \in {"a", "b"}, d \in DataLists}
Shape(q) == /\ \A j, k \in 1..Len(q) : (j # k /\ q[j].t = "node" /\ q[k].t = "node") => q[j].id # q[k].id
            /\ \A j, k \in 1..Len(q) : (j # k /\ q[j].t = "edge" /\ q[k].t = "edge") => <<q[j].u, q[j].v>> # <<q[k].u, q[k].v>>
            /\ \A k \in 1..Len(q) : q[k].t = "edge" => \A n \in {q[k].u, q[k].v} : \E j \in 1..(k - 1) : q[j].t = "node" /\ q[j].id = n
Init == /\ doc = [keys |-> <<>>, graphs |-> <<>>] /\ sparse = FALSE /\ wanted = {} /\ ps = P0 /\ pos = 0
\* choose a document in steps, then parse it
ChooseKeys == /\ pos = 0 /\ doc.keys = <<>>
              /\ \E kt \in KeyTables : doc' = [keys |-> kt, graphs |-> <<[id |-> "g1", items |-> <<>>]>>]
              /\ UNCHANGED <<sparse, wanted, ps, pos>>
AddItem == /\ pos = 0 /\ doc.keys # <<>>
           /\ LET n == Len(doc.graphs) IN
              /\ Len(doc.graphs[n].items) < MaxItems
              /\ \E i \in Items : /\ Shape(Append(doc.graphs[n].items, i))
                                  /\ doc' = [doc EXCEPT !.graphs[n].items = Append(@, i)]
           /\ UNCHANGED <<sparse, wanted, ps, pos>>
AddGraph == /\ pos = 0 /\ doc.keys # <<>> /\ Len(doc.graphs) < NGraphs
            /\ doc' = [doc EXCEPT !.graphs = Append(@, [id |-> "g2", items |-> <<>>])]
            /\ UNCHANGED <<sparse, wanted, ps, pos>>
\* the whole parse in one step (the machine is deterministic)
RECURSIVE Run(_, _, _, _)
Run(p, evs, s, w) == IF evs = <<>> THEN p ELSE Run(Step(p, Head(evs), s, w), Tail(evs), s, w)
StartParse == /\ pos = 0 /\ doc.keys # <<>>
              /\ \E s \in BOOLEAN, w \in SUBSET {"g1", "g2"} :
                    /\ (~s => w = {})
                    /\ sparse' = s /\ wanted' = w /\ ps' = Run(P0, Events(doc), s, w)
              /\ pos' = 1 /\ UNCHANGED doc
Next == ChooseKeys \/ AddItem \/ AddGraph \/ StartParse
Spec == Init /\ [][Next]_vars
Emit == pos' = 1 => PrintT("PLAN " \o ToJson([doc |-> doc', sparse |-> sparse', wanted |-> wanted']))
\* laws
StreamEqualsDenotation == pos = 1 => Result(ps, sparse, wanted) = Denote(doc, sparse, wanted)
BalancedContext == pos = 1 /\ ~ps.err => ps.ctx = <<>>
SparseIsRestriction == pos = 1 => LET full == Denote(doc, FALSE, {}) IN
    sparse /\ full.ok /\ wanted \subseteq Ids(doc) =>
        Denote(doc, TRUE, wanted) = [ok |-> TRUE, graphs |-> {g \in full.graphs : g.id \in wanted}]
\* graph data may stand anywhere among the nodes and edges
MoveData(g) == [g EXCEPT !.items = DataOf(g) \o SelectSeq(g.items, LAMBDA i : i.t # "data")]
DataAnywhere == pos = 1 => \A k \in 1..Len(doc.graphs) : LET g == doc.graphs[k] IN
    Sound(doc, g) = Sound(doc, MoveData(g)) /\ (Sound(doc, g) => Graph(doc, g) = Graph(doc, MoveData(g)))
=============================================================================
