------------------------------- MODULE OGraph -------------------------------
(* Ordered directed graphs (kind "o") and syntactic graphs (kind "d").
   A graph is a sequence of nodes and a sequence of edges in order of insertion, with attributes (sets of
   <<key, value>>) on nodes, edges and the graph.  Nodes of a syntactic graph have a label (an attribute)
   and tokens (tk); the graph has an id, tokens and a root. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, D) == [x \in (DOMAIN f) \ D |-> f[x]]
InS(q, x) == \E k \in 1..Len(q) : q[k] = x
Sel(q, P(_)) == SelectSeq(q, P)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Has(at, k) == \E a \in at : a[1] = k
Put(at, new) == {a \in at : ~Has(new, a[1])} \cup new
Rng(q) == {q[k] : k \in 1..Len(q)}

Empty(kind, id) == [kind |-> kind, nodes |-> <<>>, na |-> <<>>, tk |-> <<>>, es |-> <<>>, ea |-> <<>>,
                    ga |-> IF kind = "o" THEN {<<"name", "">>} ELSE {<<"name", "">>}, id |-> id, toks |-> <<>>, hastoks |-> FALSE,
                    root |-> "None"]

HasN(g, n) == InS(g.nodes, n)
HasE(g, u, v) == InS(g.es, <<u, v>>)
Succ(g, n) == LET q == Sel(g.es, LAMBDA e : e[1] = n) IN [k \in 1..Len(q) |-> q[k][2]]
Pred(g, n) == LET q == Sel(g.es, LAMBDA e : e[2] = n) IN [k \in 1..Len(q) |-> q[k][1]]
\* edges as listed: by node, then by successor
Edges(g) == Cat([k \in 1..Len(g.nodes) |-> LET q == Succ(g, g.nodes[k]) IN [j \in 1..Len(q) |-> <<g.nodes[k], q[j]>>]])
InEdges(g) == Cat([k \in 1..Len(g.nodes) |-> LET q == Pred(g, g.nodes[k]) IN [j \in 1..Len(q) |-> <<q[j], g.nodes[k]>>]])

AddN(g, n, at, tk) ==
    IF HasN(g, n) THEN [g EXCEPT !.na[n] = Put(@, at), !.tk[n] = tk]
    ELSE [g EXCEPT !.nodes = Append(@, n), !.na = Upd(@, n, at), !.tk = Upd(@, n, tk)]
Ensure(g, n) == IF HasN(g, n) THEN g ELSE AddN(g, n, {}, <<>>)
AddE(g0, u, v, at) ==
    LET g == Ensure(Ensure(g0, u), v) IN
    IF HasE(g, u, v) THEN [g EXCEPT !.ea[<<u, v>>] = Put(@, at)]
    ELSE [g EXCEPT !.es = Append(@, <<u, v>>), !.ea = Upd(@, <<u, v>>, at)]
RmN(g, n) == IF ~HasN(g, n) THEN g ELSE
    LET gone == {e \in Rng(g.es) : e[1] = n \/ e[2] = n} IN
    [g EXCEPT !.nodes = Sel(@, LAMBDA x : x # n), !.na = Drop(@, {n}), !.tk = Drop(@, {n}),
              !.es = Sel(@, LAMBDA e : e \notin gone), !.ea = Drop(@, gone)]
RmE(g, u, v) == [g EXCEPT !.es = Sel(@, LAMBDA e : e # <<u, v>>), !.ea = Drop(@, {<<u, v>>})]
RECURSIVE FoldN(_, _, _)
FoldN(g, ns, at) == IF ns = <<>> THEN g ELSE FoldN(AddN(g, Head(ns), at, IF HasN(g, Head(ns)) THEN g.tk[Head(ns)] ELSE <<>>), Tail(ns), at)
RECURSIVE FoldE(_, _, _)
\* es: sequence of <<u, v, attributes>>
FoldE(g, es, at) == IF es = <<>> THEN g ELSE
                    LET e == Head(es) IN FoldE(AddE(g, e[1], e[2], Put(at, e[3])), Tail(es), at)
RECURSIVE FoldRmN(_, _)
FoldRmN(g, ns) == IF ns = <<>> THEN g ELSE FoldRmN(RmN(g, Head(ns)), Tail(ns))
RECURSIVE FoldRmE(_, _)
FoldRmE(g, es) == IF es = <<>> THEN g ELSE FoldRmE(RmE(g, Head(es)[1], Head(es)[2]), Tail(es))
Sub(g, ns) == LET keep == Rng(ns) IN
    FoldRmN(g, Sel(g.nodes, LAMBDA n : n \notin keep))
\* reversing adds the reversed edges in the order in which the edges are listed
Rev(g) == LET q == Edges(g)
              h == [g EXCEPT !.es = <<>>, !.ea = <<>>]
          IN FoldE(h, [k \in 1..Len(q) |-> <<q[k][2], q[k][1], g.ea[q[k]]>>], {})
\* a graph made from another graph or from a list of edges: edges are added in listed order; its name is its own
From(g) == LET q == Edges(g) IN FoldE([g EXCEPT !.es = <<>>, !.ea = <<>>, !.ga = Put(@, {<<"name", "">>})], [k \in 1..Len(q) |-> <<q[k][1], q[k][2], g.ea[q[k]]>>], {})

EdgesKnown(g, es) == \A k \in 1..Len(es) : HasN(g, es[k][1]) /\ HasN(g, es[k][2])

\* exception name, or "" if the operation goes through
Exc(gs, op) ==
    LET g == gs[op.g] IN
    CASE op.op \in {"rmn"} -> IF HasN(g, op.n) THEN "" ELSE "NetworkXError"
      [] op.op \in {"rme"} -> IF HasE(g, op.u, op.v) THEN "" ELSE "NetworkXError"
      [] op.op = "adde" -> IF g.kind = "d" /\ ~(HasN(g, op.u) /\ HasN(g, op.v)) THEN "ValueError" ELSE ""
      [] op.op = "addes" -> IF g.kind = "d" /\ ~EdgesKnown(g, op.es) THEN "ValueError" ELSE ""
      [] op.op = "badattr" -> "NetworkXError"
      [] OTHER -> ""
\* for addes with an unknown node: the edges before it have been added
RECURSIVE Known1(_, _)
Known1(g, es) == IF es = <<>> \/ ~(HasN(g, Head(es)[1]) /\ HasN(g, Head(es)[2])) THEN <<>>
                 ELSE <<Head(es)>> \o Known1(g, Tail(es))

EAt(g, op) == IF g.kind = "d" THEN Put(op.at, {<<"label", op.label>>}) ELSE op.at
Apply(gs, op) ==
    IF op.op = "new" THEN Upd(gs, op.g, [Empty(op.kind, op.id) EXCEPT !.root = op.root]) ELSE
    LET g == gs[op.g]
        S(x) == Upd(gs, op.g, x)
    IN
    CASE op.op = "addn" -> S(AddN(g, op.n, IF g.kind = "d" THEN Put(op.at, {<<"label", op.label>>}) ELSE op.at,
                                  IF g.kind = "d" THEN op.tk ELSE <<>>))
      [] op.op = "addns" -> S(FoldN(g, op.ns, op.at))
      [] op.op = "adde" -> IF Exc(gs, op) # "" THEN gs ELSE S(AddE(g, op.u, op.v, EAt(g, op)))
      [] op.op = "addes" -> S(FoldE(g, IF g.kind = "d" THEN Known1(g, op.es) ELSE op.es, EAt(g, op)))
      [] op.op = "path" -> S(FoldE(g, [k \in 1..(Len(op.ns) - 1) |-> <<op.ns[k], op.ns[k + 1], {}>>], op.at))
      [] op.op = "rmn" -> S(RmN(g, op.n))
      [] op.op = "rmns" -> S(FoldRmN(g, op.ns))
      [] op.op = "rme" -> S(RmE(g, op.u, op.v))
      [] op.op = "rmes" -> S(FoldRmE(g, op.es))
      [] op.op = "clear" -> S([Empty(g.kind, g.id) EXCEPT !.ga = {}, !.root = g.root, !.toks = g.toks, !.hastoks = g.hastoks])
      [] op.op = "copy" -> Upd(gs, op.h, g)
      [] op.op = "sub" -> Upd(gs, op.h, Sub(g, op.ns))
      [] op.op = "rev" -> Upd(gs, op.h, Rev(g))
      [] op.op = "from" -> Upd(gs, op.h, From(g))
      [] op.op = "frome" -> Upd(gs, op.h, FoldE(Empty("o", "None"), op.es, {}))
      [] op.op = "setn" -> S([g EXCEPT !.na[op.n] = Put(@, {<<op.k, op.v>>})])
      [] op.op = "sete" -> S([g EXCEPT !.ea[<<op.u, op.v>>] = Put(@, {<<op.k, op.w>>})])
      [] op.op = "setg" -> S([g EXCEPT !.ga = Put(@, {<<op.k, op.v>>})])
      [] op.op = "settk" -> S([g EXCEPT !.tk[op.n] = op.tk])
      [] op.op = "setgt" -> S([g EXCEPT !.toks = op.tk, !.hastoks = TRUE])
      [] OTHER -> gs

\* ---------------------------------------------------------------- queries on syntactic graphs
Punct == {"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?",
          "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~"}
IsEmpty(g, n) == g.tk[n] = <<>>
IsPunct(g, n) == g.tk[n] # <<>> /\ \A k \in 1..Len(g.tk[n]) : g.tk[n][k] \in Punct
IsLeaf(g, n) == ~\E k \in 1..Len(g.es) : g.es[k][1] = n
IsTerm(g, n, p, e) == IsLeaf(g, n) /\ (p \/ ~IsPunct(g, n)) /\ (e \/ ~IsEmpty(g, n))
Terminals(g, p, e) == Sel(g.nodes, LAMBDA n : IsTerm(g, n, p, e))
NonTerminals(g) == Sel(g.nodes, LAMBDA n : ~IsLeaf(g, n))
\* preorder of all nodes reachable from the nodes of q
RECURSIVE Pre(_, _, _)
Pre(g, q, seen) == IF q = <<>> THEN seen
                   ELSE IF InS(seen, Head(q)) THEN Pre(g, Tail(q), seen)
                   ELSE Pre(g, Tail(q), Pre(g, Succ(g, Head(q)), Append(seen, Head(q))))
Yield(g, n, p, e) == Sel(Pre(g, <<n>>, <<>>), LAMBDA x : IsTerm(g, x, p, e))
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o Join(Tail(q))

\* ---------------------------------------------------------------- model
CONSTANTS NodeNames, MaxDepth, Kind
VARIABLES gs, hist
vars == <<gs, hist>>
View == <<gs, Len(hist)>>
Op == hist'[Len(hist')]
N == NodeNames
At == {{}, {<<"w", "1">>}}
Init == /\ gs = ("g" :> Empty(Kind, "i1"))
        /\ hist = <<[op |-> "new", g |-> "g", kind |-> Kind, id |-> "i1", root |-> "None"]>>
Toks == {<<>>, <<"x">>, <<".">>}
OpsO == {[op |-> "addn", g |-> x, n |-> n, at |-> a] : x \in DOMAIN gs, n \in N, a \in At}
        \cup {[op |-> "addns", g |-> "g", ns |-> <<n, m>>, at |-> {<<"w", "1">>}] : n \in N, m \in N}
        \cup {[op |-> "adde", g |-> x, u |-> u, v |-> v, at |-> a] : x \in DOMAIN gs, u \in N, v \in N, a \in {{<<"l", "2">>}}}
        \cup {[op |-> "addes", g |-> "g", es |-> <<<<u, v, {}>>, <<v, u, {<<"l", "3">>}>>>>, at |-> {<<"l", "4">>}] : u \in N, v \in N}
        \cup {[op |-> "rmn", g |-> x, n |-> n] : x \in DOMAIN gs, n \in N}
        \cup {[op |-> "rme", g |-> x, u |-> u, v |-> v] : x \in DOMAIN gs, u \in N, v \in N}
        \cup {[op |-> "rmns", g |-> "g", ns |-> <<n, m>>] : n \in N, m \in N}
        \cup {[op |-> o, g |-> "g", h |-> "h"] : o \in {"copy", "rev", "from"}}
        \cup {[op |-> "sub", g |-> "g", h |-> "k", ns |-> <<m, n>>] : n \in N, m \in N}
        \cup {[op |-> "clear", g |-> "g"]}
OpsD == {[op |-> "addn", g |-> "g", n |-> n, at |-> {}, label |-> "np", tk |-> t] : n \in N, t \in Toks}
        \cup {[op |-> "adde", g |-> "g", u |-> u, v |-> v, at |-> {}, label |-> "hd"] : u \in N, v \in N}
        \cup {[op |-> "rmn", g |-> "g", n |-> n] : n \in N}
        \cup {[op |-> "rme", g |-> "g", u |-> u, v |-> v] : u \in N, v \in N}
\* a subgraph shares attributes with the original: only change structure afterwards
Shares == "k" \in DOMAIN gs
Ok(op) == (Shares => op.op \in {"addn", "rmn", "rme", "adde"} /\
                     (op.op = "addn" => ~HasN(gs[op.g], op.n)) /\ (op.op = "adde" => ~HasE(gs[op.g], op.u, op.v)))
Next == /\ Len(hist) <= MaxDepth
        /\ \E op \in (IF Kind = "o" THEN OpsO ELSE OpsD) : /\ Ok(op) /\ gs' = Apply(gs, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* sets of attributes are printed as lists
EmitOp(op) == op
Emit == (\A x \in DOMAIN gs' : Len(gs'[x].nodes) <= 3) /\ PrintT("PLAN " \o ToJson(hist'))

Wf(g) == /\ DOMAIN g.na = Rng(g.nodes) /\ DOMAIN g.tk = Rng(g.nodes) /\ DOMAIN g.ea = Rng(g.es)
         /\ Len(g.nodes) = Cardinality(Rng(g.nodes)) /\ Len(g.es) = Cardinality(Rng(g.es))
         /\ \A e \in Rng(g.es) : e[1] \in Rng(g.nodes) /\ e[2] \in Rng(g.nodes)
WellFormed == \A x \in DOMAIN gs : Wf(gs[x])
\* what survives an operation keeps its order, and what is new comes after it
Order(q, r) == LET old == Sel(r, LAMBDA x : InS(q, x)) IN
               /\ old = SubSeq(r, 1, Len(old))
               /\ old = Sel(q, LAMBDA x : InS(r, x))
KeepsOrder == [][\A x \in (DOMAIN gs) \ {"h", "k"} : Order(gs[x].nodes, gs'[x].nodes) /\ Order(gs[x].es, gs'[x].es)]_vars
Others == [][\A x \in DOMAIN gs : (x # Op.g /\ ~("h" \in DOMAIN Op /\ x = Op.h)) => gs'[x] = gs[x]]_vars
SameSets == \A x \in DOMAIN gs : LET g == gs[x] IN Rng(Edges(g)) = Rng(g.es) /\ Rng(InEdges(g)) = Rng(g.es)
CopySame == [][Op.op \in {"copy", "from", "rev"} =>
               /\ gs'[Op.h].nodes = gs[Op.g].nodes /\ gs'[Op.h].na = gs[Op.g].na
               /\ (Op.op # "rev" => Edges(gs'[Op.h]) = Edges(gs[Op.g]) /\ gs'[Op.h].ea = gs[Op.g].ea)
               /\ (Op.op = "rev" => Rng(gs'[Op.h].es) = {<<e[2], e[1]>> : e \in Rng(gs[Op.g].es)})]_vars
\* terminals below a node: the leaves reachable from it, each once
RECURSIVE Reach(_, _)
Reach(g, X) == LET Y == X \cup {e[2] : e \in {e \in Rng(g.es) : e[1] \in X}} IN IF Y = X THEN X ELSE Reach(g, Y)
YieldLaws == \A x \in DOMAIN gs : LET g == gs[x] IN \A n \in Rng(g.nodes) :
             LET y == Yield(g, n, TRUE, TRUE) IN
             /\ Rng(y) = {m \in Reach(g, {n}) : IsLeaf(g, m)} /\ Len(y) = Cardinality(Rng(y))
             /\ Yield(g, n, FALSE, TRUE) = Sel(y, LAMBDA m : ~IsPunct(g, m))
             /\ Yield(g, n, FALSE, FALSE) = Sel(y, LAMBDA m : ~IsPunct(g, m) /\ ~IsEmpty(g, m))
             /\ (IsLeaf(g, n) => y = <<n>>)
\* in a tree the yield of a node is the concatenation of the yields of its children
TreeYield == \A x \in DOMAIN gs : LET g == gs[x] IN
             (\A n \in Rng(g.nodes) : Len(Pred(g, n)) <= 1 /\ n \notin Reach(g, Rng(Succ(g, n)))) =>
             \A n \in Rng(g.nodes) : LET q == Succ(g, n) IN
                 ~IsLeaf(g, n) => Yield(g, n, TRUE, TRUE) = Cat([k \in 1..Len(q) |-> Yield(g, q[k], TRUE, TRUE)])
=============================================================================
