------------------------------ MODULE Creation ------------------------------
(* From parallel text to a corpus of graph pairs, and from a corpus to phrase pairs.

   A text is a sequence of elements in document order [tag, id, depth, w, x]: w are the words the element
   itself starts with, x the words that follow it.  White space around tags does not count, so words of
   adjacent elements run together, as in the text that the framework extracts (ElemTree).  A parallel text document links elements of two texts by tag and id.  Creating a
   corpus selects the links between elements of the wanted tags whose word counts and word differences
   are within bounds; each becomes a pair of the graphs that have the ids of the elements.
   Graphs live in banks: bank -> sequence of [id, nodes], nodes a sequence of [id, w].
   The state: docs (name -> [f, t, links]), cor (name -> [rels, pairs]), pairs [sb, tb, sg, tg, al]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Ran(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Join(_, _)
Join(q, d) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o d \o Join(Tail(q), d)

\* ---- texts
Last(es, k) == CHOOSE j \in k..Len(es) : /\ \A i \in (k + 1)..j : es[i].depth > es[k].depth
                                         /\ j = Len(es) \/ es[j + 1].depth <= es[k].depth
Glue(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE SubSeq(a, 1, Len(a) - 1) \o <<a[Len(a)] \o Head(b)>> \o Tail(b)
RECURSIVE Inner(_, _, _), Words(_, _)
\* what elements i..j at one depth and their tails contain
Words(es, k) == Glue(es[k].w, Inner(es, k + 1, Last(es, k)))
Inner(es, i, j) == IF i > j THEN <<>>
                   ELSE Glue(Glue(Words(es, i), es[i].x), Inner(es, Last(es, i) + 1, j))
Has(es, tag, id) == \E k \in 1..Len(es) : es[k].tag = tag /\ es[k].id = id
WordsOf(es, tag, id) == Words(es, CHOOSE k \in 1..Len(es) : es[k].tag = tag /\ es[k].id = id)
\* words of one side that the other side does not have at all, each occurrence counted
WordDiff(a, b) == Cardinality({k \in 1..Len(a) : a[k] \notin Ran(b)}) + Cardinality({k \in 1..Len(b) : b[k] \notin Ran(a)})

\* ---- creating a corpus; o: [ft, tt, max, min]
HasGraph(bank, id) == \E k \in 1..Len(bank) : bank[k].id = id
Tagged(l, o) == l.ft = o.ft /\ l.tt = o.tt
Known(d, l) == Has(d.f, l.ft, l.fi) /\ Has(d.t, l.tt, l.ti)
Within(d, l, o) == LET a == WordsOf(d.f, l.ft, l.fi)  b == WordsOf(d.t, l.tt, l.ti) IN
    /\ Len(a) <= o.max /\ Len(b) <= o.max
    /\ o.min = 0 \/ WordDiff(a, b) >= o.min
Broken(d, sb, tb, l, o) == Tagged(l, o) /\ (~Known(d, l) \/ (Within(d, l, o) /\ ~(HasGraph(sb, l.fi) /\ HasGraph(tb, l.ti))))
Creatable(d, sb, tb, o) == \A k \in 1..Len(d.links) : ~Broken(d, sb, tb, d.links[k], o)
Selected(d, o) == SelectSeq(d.links, LAMBDA l : Tagged(l, o) /\ Known(d, l) /\ Within(d, l, o))
Created(d, sbn, tbn, o) == LET q == Selected(d, o) IN
    [rels |-> o.rels, pairs |-> [k \in 1..Len(q) |-> [sb |-> sbn, tb |-> tbn, sg |-> q[k].fi, tg |-> q[k].ti, al |-> <<>>]]]
\* the documents dealt with: all of them up to the first that cannot be processed
RECURSIVE Upto(_, _, _)
Upto(s, op, k) == IF k > Len(op.docs) THEN k - 1 ELSE
    LET x == op.docs[k] IN
    IF Creatable(s.docs[x.doc], s.banks[x.sb], s.banks[x.tb], op) THEN Upto(s, op, k + 1) ELSE k - 1
\* parallel texts, source and target graphbanks are listed apart and must be equally many
Matching(op) == op.nf = Len(op.docs) /\ op.nt = Len(op.docs)
Done(s, op) == IF Matching(op) THEN Upto(s, op, 1) ELSE 0
NewCor(s, op) == [n \in {op.docs[k].out : k \in 1..Done(s, op)} |->
                   LET k == CHOOSE k \in 1..Done(s, op) : op.docs[k].out = n /\ \A j \in (k + 1)..Done(s, op) : op.docs[j].out # n
                       x == op.docs[k] IN Created(s.docs[x.doc], x.sb, x.tb, op)]

\* ---- extracting phrases
NodeWords(bank, g, n) == LET x == bank[CHOOSE k \in 1..Len(bank) : bank[k].id = g].nodes
                         IN Join(x[CHOOSE k \in 1..Len(x) : x[k].id = n].w, " ")
Line(s, p, a, op) ==
    LET cols == <<NodeWords(s.banks[p.sb], p.sg, a[1]), a[3], NodeWords(s.banks[p.tb], p.tg, a[2])>>
    IN Join(IF op.verbose THEN <<p.sb, p.tb, p.sg, p.tg, a[1], a[2]>> \o cols ELSE cols, op.delim)
Lines(s, p, op) == [k \in 1..Len(p.al) |-> Line(s, p, p.al[k], op)]
\* lines of a pair come in any order, the pairs in theirs
Extracted(s, op) == Flat([c \in 1..Len(op.cs) |-> [k \in 1..Len(s.cor[op.cs[c]].pairs) |-> Lines(s, s.cor[op.cs[c]].pairs[k], op)]])
Bag(q) == [x \in Ran(q) |-> Cardinality({k \in 1..Len(q) : q[k] = x})]
RECURSIVE LinesOk(_, _)
LinesOk(groups, lines) == IF groups = <<>> THEN lines = <<>> ELSE
    LET n == Len(Head(groups)) IN
    /\ Len(lines) >= n
    /\ Bag(SubSeq(lines, 1, n)) = Bag(Head(groups))
    /\ LinesOk(Tail(groups), SubSeq(lines, n + 1, Len(lines)))

Apply(s, op) ==
    CASE op.op = "link"    -> [s EXCEPT !.docs[op.doc].links = Append(@, op.l)]
      [] op.op = "create"  -> [s EXCEPT !.cor = NewCor(s, op) @@ @]
      [] op.op = "align"   -> [s EXCEPT !.cor[op.c].pairs[op.k].al = Append(@, op.a)]
      [] op.op = "extract" -> s

\* ---- model
CONSTANTS MaxLen, Words1, Small
VARIABLES s, hist
cvars == <<s, hist>>
El(tag, id, depth, w) == [tag |-> tag, id |-> id, depth |-> depth, w |-> w, x |-> <<>>]
N(id, w) == [id |-> id, w |-> w]
TF == <<El("d", "d1", 0, <<>>), El("p", "1", 1, <<"c">>), El("s", "1", 2, <<"a", "b", "a">>), El("s", "2", 2, <<"b">>)>>
TT == <<El("d", "d1", 0, <<>>), El("s", "1", 1, <<"b", "c">>), El("p", "1", 1, <<"c">>), El("s", "2", 2, <<>>)>>
B1 == <<[id |-> "1", nodes |-> <<N("n1", <<"a", "b">>), N("n2", <<>>)>>], [id |-> "2", nodes |-> <<N("n1", <<"b">>), N("n2", <<"x">>)>>]>>
B2 == <<[id |-> "1", nodes |-> <<N("n1", <<"c">>), N("n2", <<"d", "e">>)>>]>>
Start0 == [docs |-> [x \in {"x"} |-> [f |-> TF, t |-> TT, links |-> <<>>]], banks |-> ("b1" :> B1) @@ ("b2" :> B2), cor |-> <<>>]
Do(op) == /\ Len(hist) < MaxLen
          /\ s' = Apply(s, op)
          /\ hist' = Append(hist, op)
Tags == {"s", "p"}
L(a, i, b, j) == [ft |-> a, fi |-> i, tt |-> b, ti |-> j]
Opts == [ft : Tags, tt : Tags, max : {0, 1, 2, 9}, min : {0, 1, 3}]
FewOpts == {o \in Opts : (o.ft = "s" /\ o.tt = "s" /\ (o.max = 9 \/ o.min = 0)) \/ (o.max = 9 /\ o.min = 0)}
Go(sb, tb, o) == [op |-> "create", docs |-> <<[doc |-> "x", sb |-> sb, tb |-> tb, out |-> "x.pgc"]>>, nf |-> 1, nt |-> 1,
                   ft |-> o.ft, tt |-> o.tt, max |-> o.max, min |-> o.min, rels |-> <<"equals", "restates">>]
Next == \/ \E a, b \in Tags, i, j \in {"1", "2"} : Len(s.docs.x.links) < 2 /\ s.cor = <<>>
               /\ Do([op |-> "link", doc |-> "x", l |-> L(a, i, b, j)])
        \/ \E o \in (IF Small THEN FewOpts ELSE Opts), tb \in {"b1", "b2"} : s.docs.x.links # <<>> /\ s.cor = <<>> /\ Do(Go("b1", tb, o))
        \/ \E c \in DOMAIN s.cor : \E k \in 1..Len(s.cor[c].pairs) : \E u, v \in {"n1", "n2"}, r \in {"equals", "restates"} :
               /\ k = 1 /\ Len(s.cor[c].pairs[k].al) < 2
               /\ \A i \in 1..Len(s.cor[c].pairs[k].al) : s.cor[c].pairs[k].al[i][1] # u /\ s.cor[c].pairs[k].al[i][2] # v
               /\ Do([op |-> "align", c |-> c, k |-> k, a |-> <<u, v, r>>])
        \/ s.cor # <<>> /\ \E v \in BOOLEAN : Do([op |-> "extract", cs |-> <<"x.pgc">>, verbose |-> v, delim |-> "|"])
Init == s = Start0 /\ hist = <<>>
Spec == Init /\ [][Next]_cvars
View == <<s, Len(hist) > 0 /\ hist[Len(hist)].op = "extract">>
Emit == PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
Sub(a, b) == \* a is a subsequence of b, both sequences of links of one document
    LET f(x, q) == Cardinality({k \in 1..Len(q) : q[k] = x}) IN \A x \in Ran(a) \cup Ran(b) : f(x, a) <= f(x, b)
D == s.docs.x
\* a looser bound keeps what a tighter bound selects; without bounds every link of the tags is selected
Monotone == \A o, p \in Opts : o.ft = p.ft /\ o.tt = p.tt /\ o.max <= p.max /\ o.min >= p.min => Sub(Selected(D, o), Selected(D, p))
Unbound == \A o \in Opts : o.max = 9 /\ o.min = 0 => Selected(D, o) = SelectSeq(D.links, LAMBDA l : Tagged(l, o) /\ Known(D, l))
\* exchanging the sides exchanges the sides of what is selected
Swap(l) == [ft |-> l.tt, fi |-> l.ti, tt |-> l.ft, ti |-> l.fi]
SwapDoc(d) == [f |-> d.t, t |-> d.f, links |-> [k \in 1..Len(d.links) |-> Swap(d.links[k])]]
Mirrored == \A o \in Opts : LET q == Selected(D, o) IN
    Selected(SwapDoc(D), [o EXCEPT !.ft = o.tt, !.tt = o.ft]) = [k \in 1..Len(q) |-> Swap(q[k])]
\* every alignment gives one line
OneLine == \A c \in DOMAIN s.cor : LET op == [cs |-> <<c>>, verbose |-> TRUE, delim |-> "|"] IN
    /\ LinesOk(Extracted(s, op), Flat(Extracted(s, op)))
    /\ Len(Flat(Extracted(s, op))) = Len(Flat([k \in 1..Len(s.cor[c].pairs) |-> s.cor[c].pairs[k].al]))
=============================================================================
