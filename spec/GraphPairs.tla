----------------------------- MODULE GraphPairs -----------------------------
(* Graph pairs: mappings (many-to-many) and matchings (one-to-one) between the
   nodes of a source and a target graph, their copies and their equality.

   The abstract state is a heap of graph pair objects.  Each object has
     kind        "map" or "match"
     sb, tb      names of its source and target graphbank (names of files)
     sg, tg      ids of its graphs
     own         the identity of the graphbank and graph objects it refers to (shared by copies)
     al          its alignments: a set of triples <<source node, target node, relation>>
     meta        its meta-data (an abstract token: equal tokens <=> equal meta-data)
   Operations are total: each gives the outcome ("ok" or an error, which leaves the heap
   unchanged) and the next heap.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

NoRel == "None"

Links(al, s, t) == {x \in al : x[1] = s /\ x[2] = t}
Linked(al, s, t) == Links(al, s, t) # {}
Rel(al, s, t) == IF Linked(al, s, t) THEN (CHOOSE x \in Links(al, s, t) : TRUE)[3] ELSE NoRel

AddAl(kind, al, s, t, r) ==
    IF kind = "match"
    THEN {x \in al : x[1] # s /\ x[2] # t} \cup {<<s, t, r>>}
    ELSE (al \ Links(al, s, t)) \cup {<<s, t, r>>}
DelAl(al, s, t) == al \ Links(al, s, t)

TargetsOf(al, s) == {x[2] : x \in {y \in al : y[1] = s}}
SourcesOf(al, t) == {x[1] : x \in {y \in al : y[2] = t}}
Filter(al, R) == {x \in al : x[3] \in R}
NodesOf(al) == {x[1] : x \in al} \cup {x[2] : x \in al}

OneToOne(al) == \A x, y \in al : (x[1] = y[1] \/ x[2] = y[2]) => x = y
Functional(al) == \A x, y \in al : (x[1] = y[1] /\ x[2] = y[2]) => x = y

Opt(op, f, d) == IF f \in DOMAIN op THEN op[f] ELSE d
NewObj(op) ==
    [kind |-> op.kind, sb |-> op.sb, tb |-> op.tb, sg |-> op.sg, tg |-> op.tg, al |-> {},
     meta |-> op.meta,
     own |-> <<Opt(op, "sbo", op.sb), Opt(op, "tbo", op.tb), Opt(op, "gv", 0)>>]

\* equality of graph pairs (defined between objects of the same kind): content, not identity
EqObj(x, y) == [x EXCEPT !.own = <<>>] = [y EXCEPT !.own = <<>>]

\* ---------------------------------------------------------------- operations
Put(h, o, x) == [k \in (DOMAIN h) \cup {o} |-> IF k = o THEN x ELSE h[k]]

\* op : record with field "op" and the arguments.  Result: [ok, heap]
Apply(h, op) ==
    CASE op.op = "new"  -> [ok |-> TRUE, heap |-> Put(h, op.o,
                                 NewObj(op))]
      [] op.op = "add"  -> [ok |-> TRUE, heap |-> [h EXCEPT ![op.o].al =
                                 AddAl(h[op.o].kind, @, op.s, op.t, op.r)]]
      [] op.op = "del"  -> [ok |-> Linked(h[op.o].al, op.s, op.t),
                            heap |-> [h EXCEPT ![op.o].al = DelAl(@, op.s, op.t)]]
      [] op.op = "copy" -> [ok |-> TRUE, heap |-> Put(h, op.p, h[op.o])]
      [] op.op = "meta" -> [ok |-> TRUE, heap |-> [h EXCEPT ![op.o].meta = op.meta]]
      [] op.op = "look" -> [ok |-> TRUE, heap |-> h]

\* ---------------------------------------------------------------- the model
CONSTANTS Kinds, SNodes, TNodes, Rels, Objs, Metas, Banks, MaxLen

VARIABLES heap, hist
vars == <<heap, hist>>
View == heap

NewOps == {[op |-> "new", o |-> o, kind |-> k, sb |-> b, tb |-> c, sg |-> "g1", tg |-> "g2", meta |-> m] :
               o \in Objs, k \in Kinds, b \in Banks, c \in Banks, m \in Metas}
AddOps == {[op |-> "add", o |-> o, s |-> s, t |-> t, r |-> r] :
               o \in DOMAIN heap, s \in SNodes, t \in TNodes, r \in Rels}
DelOps == {[op |-> "del", o |-> o, s |-> s, t |-> t] : o \in DOMAIN heap, s \in SNodes, t \in TNodes}
CopyOps == {[op |-> "copy", o |-> o, p |-> p] : o \in DOMAIN heap, p \in Objs}
MetaOps == {[op |-> "meta", o |-> o, meta |-> m] : o \in DOMAIN heap, m \in Metas}

Do(op) == LET r == Apply(heap, op) IN
          /\ heap' = r.heap
          /\ hist' = Append(hist, op)

Init == \E op \in {x \in [op : {"new"}, o : {CHOOSE o \in Objs : TRUE}, kind : Kinds, sb : Banks, tb : Banks,
                          sg : {"g1"}, tg : {"g2"}, meta : Metas] : TRUE} :
            /\ heap = Apply(<<>>, op).heap
            /\ hist = <<op>>
Add == \E op \in AddOps : Do(op)
Del == \E op \in DelOps : Do(op)
Copy == Cardinality(Objs) > 1 /\ \E op \in CopyOps : op.p \notin DOMAIN heap /\ Do(op)
SetMeta == Cardinality(Metas) > 1 /\ \E op \in MetaOps : Do(op)
Next == /\ Len(hist) < MaxLen
        /\ (Add \/ Del \/ Copy \/ SetMeta)
Spec == Init /\ [][Next]_vars

\* one implementation test per transition of the state graph
Emit == PrintT("PLAN " \o ToJson(hist'))

\* ---------------------------------------------------------------- properties
MatchingsOneToOne == \A o \in DOMAIN heap : heap[o].kind = "match" => OneToOne(heap[o].al)
RelationsUnique == \A o \in DOMAIN heap : Functional(heap[o].al)

\* queries agree with one another (they are all answered from the same set)
QueriesAgree ==
    \A o \in DOMAIN heap : LET al == heap[o].al IN
        /\ \A s \in SNodes, t \in TNodes :
               (Rel(al, s, t) # NoRel) <=> (t \in TargetsOf(al, s))
        /\ \A s \in SNodes, t \in TNodes : t \in TargetsOf(al, s) <=> s \in SourcesOf(al, t)
        /\ UNION {Filter(al, {r}) : r \in Rels} = al

\* an operation on one object never shows in another
Independence ==
    [][\A o \in DOMAIN heap : heap'[o] # heap[o] =>
          hist'[Len(hist')].o = o /\ hist'[Len(hist')].op \in {"add", "del", "meta"}]_vars

\* adding undoes earlier alignments of its end nodes only; deleting removes only its pair
Frame ==
    [][LET op == hist'[Len(hist')] IN
       /\ op.op = "add" =>
            LET al == heap[op.o].al  al2 == heap'[op.o].al IN
            /\ <<op.s, op.t, op.r>> \in al2
            /\ \A x \in al : (x[1] # op.s /\ x[2] # op.t) => x \in al2
            /\ (heap[op.o].kind = "map") => \A x \in al : (x[1] # op.s \/ x[2] # op.t) => x \in al2
            /\ al2 \ {<<op.s, op.t, op.r>>} \subseteq al
       /\ op.op = "del" =>
            LET al == heap[op.o].al  al2 == heap'[op.o].al IN
            /\ al2 \subseteq al
            /\ \A x \in al \ al2 : x[1] = op.s /\ x[2] = op.t
            /\ ~Linked(al2, op.s, op.t)]_vars

\* a deep copy equals its original at the moment of copying
CopiesEqual ==
    [][LET op == hist'[Len(hist')] IN op.op = "copy" => EqObj(heap'[op.p], heap'[op.o])]_vars
=============================================================================
