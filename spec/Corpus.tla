------------------------------- MODULE Corpus -------------------------------
(* Parallel graph corpora as lists of graph pairs with relations and meta-data.

   The state has
     cor    corpora:     name -> [q: sequence of pair names, rels: sequence, meta: name of an element]
     pairs  graph pairs: name -> [key, al, meta]   (content; key stands for banks and graphs)
     metas  meta-data:   element name -> token (content; "tok|name" when it names an annotator)
   Pair names and element names are identities: two pairs with different names and equal
   contents are equal but different objects.  Every operation is total: an operation that is
   refused leaves the state as it was. *)
EXTENDS PyList, TLC, Json, FiniteSetsExt

GP == INSTANCE GraphPairs WITH Kinds <- {}, SNodes <- {}, TNodes <- {}, Rels <- {}, Objs <- {},
                               Metas <- {}, Banks <- {}, MaxLen <- 0, heap <- <<>>, hist <- <<>>

\* ---------------------------------------------------------------- annotators
\* they are part of the meta-data: "m1|Ann + Bob"
RECURSIVE BarAt(_, _)
BarAt(t, k) == IF k > Len(t) THEN 0 ELSE IF SubSeq(t, k, k) = "|" THEN k ELSE BarAt(t, k + 1)
TokBase(t) == IF BarAt(t, 1) = 0 THEN t ELSE SubSeq(t, 1, BarAt(t, 1) - 1)
Annot(t) == IF BarAt(t, 1) = 0 THEN "" ELSE SubSeq(t, BarAt(t, 1) + 1, Len(t))
\* a further annotator is appended to those there are, unless they are to be replaced
SetAnnot(t, who, app) == TokBase(t) \o "|" \o (IF Annot(t) = "" \/ ~app THEN who ELSE Annot(t) \o " + " \o who)

Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
PairEq(s, p, q) == s.pairs[p] = s.pairs[q]
MetaTok(s, m) == IF m = "none" THEN "none" ELSE s.metas[m]
CorEq(s, c, d) ==
    LET x == s.cor[c]  y == s.cor[d] IN
    /\ x.rels = y.rels
    /\ MetaTok(s, x.meta) = MetaTok(s, y.meta)
    /\ Len(x.q) = Len(y.q)
    /\ \A j \in 1..Len(x.q) : PairEq(s, x.q[j], y.q[j])

\* positions of pairs equal to p
Hits(s, q, p) == {j \in 1..Len(q) : PairEq(s, q[j], p)}

IsCor(s, d) == d \in DOMAIN s.cor
Compatible(s, c, d) == IsCor(s, d) /\ s.cor[d].rels = s.cor[c].rels

R(ok, s, rs, ri) == [ok |-> ok, st |-> s, rs |-> rs, ri |-> ri]
Ok(s) == R(TRUE, s, "", 0)
No(s) == R(FALSE, s, "", 0)
SetQ(s, c, q) == [s EXCEPT !.cor[c].q = q]
\* a corpus derived from c: shares relations and meta-data
Derive(s, c, e, q) == [s EXCEPT !.cor = Upd(s.cor, e, [s.cor[c] EXCEPT !.q = q])]

CopyName(x, e) == x \o "@" \o e
\* deep copy of c as e: fresh pairs and fresh meta-data element, sharing pattern kept
DeepCopy(s, c, e) ==
    LET x == s.cor[c]
        ps == SeqSet(x.q)
        new == {CopyName(p, e) : p \in ps}
        orig(n) == CHOOSE p \in ps : CopyName(p, e) = n
    IN [s EXCEPT
          !.cor = Upd(s.cor, e, [q |-> [j \in 1..Len(x.q) |-> CopyName(x.q[j], e)],
                                 rels |-> x.rels,
                                 meta |-> IF x.meta = "none" THEN "none" ELSE CopyName(x.meta, e)]),
          !.pairs = [n \in (DOMAIN s.pairs) \cup new |-> IF n \in new THEN s.pairs[orig(n)] ELSE s.pairs[n]],
          !.metas = IF x.meta = "none" THEN s.metas
                    ELSE Upd(s.metas, CopyName(x.meta, e), s.metas[x.meta])]

RECURSIVE StableSort(_, _)
\* stable sort by a rank
StableSort(q, rank) ==
    IF q = <<>> THEN <<>>
    ELSE LET m == CHOOSE j \in 1..Len(q) : /\ \A i \in 1..Len(q) : rank[q[i]] >= rank[q[j]]
                                           /\ \A i \in 1..(j - 1) : rank[q[i]] > rank[q[j]]
         IN <<q[m]>> \o StableSort(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)), rank)

Apply(s, op) ==
    LET c == op.c
        q == IF IsCor(s, c) THEN s.cor[c].q ELSE <<>>
        n == Len(q)
    IN CASE op.op = "pair" ->     \* a new graph pair object
              Ok([s EXCEPT !.pairs = Upd(s.pairs, op.p, [key |-> op.key, al |-> {}, meta |-> op.meta])])
         [] op.op = "elem" ->     \* a new meta-data element
              Ok([s EXCEPT !.metas = Upd(s.metas, op.m, op.tok)])
         [] op.op = "new" ->
              Ok([s EXCEPT !.cor = Upd(s.cor, c, [q |-> op.q, rels |-> op.rels, meta |-> op.meta])])
         [] op.op = "append" -> IF op.p \in DOMAIN s.pairs THEN Ok(SetQ(s, c, Append(q, op.p))) ELSE No(s)
         [] op.op = "insert" -> IF op.p \in DOMAIN s.pairs THEN Ok(SetQ(s, c, InsertAt(q, op.i, op.p))) ELSE No(s)
         [] op.op = "extend" -> Ok(SetQ(s, c, q \o (IF IsCor(s, op.d) THEN s.cor[op.d].q ELSE op.q)))
         [] op.op = "pop" -> LET i == IF op.i = NoIdx THEN -1 ELSE op.i IN
                             IF ItemOk(n, i) THEN R(TRUE, SetQ(s, c, DelItem(q, i)), At(q, ItemIdx(n, i)), 0) ELSE No(s)
         [] op.op = "remove" -> IF Hits(s, q, op.p) = {} THEN No(s)
                                ELSE Ok(SetQ(s, c, DropIdx(q, {Min(Hits(s, q, op.p)) - 1}, 1)))
         [] op.op = "index" -> IF Hits(s, q, op.p) = {} THEN No(s)
                               ELSE R(TRUE, s, "", Min(Hits(s, q, op.p)) - 1)
         [] op.op = "count" -> R(TRUE, s, "", Cardinality(Hits(s, q, op.p)))
         [] op.op = "contains" -> R(TRUE, s, "", IF Hits(s, q, op.p) = {} THEN 0 ELSE 1)
         [] op.op = "reverse" -> Ok(SetQ(s, c, Rev(q)))
         [] op.op = "clear" -> Ok(SetQ(s, c, <<>>))
         [] op.op = "sort" -> LET rank == [p \in SeqSet(q) |-> Cardinality(s.pairs[p].al)] IN
                              Ok(SetQ(s, c, IF op.rev = 1 THEN Rev(StableSort(Rev(q), rank)) ELSE StableSort(q, rank)))
         [] op.op = "getitem" -> IF ItemOk(n, op.i) THEN R(TRUE, s, At(q, ItemIdx(n, op.i)), 0) ELSE No(s)
         [] op.op = "setitem" -> IF ItemOk(n, op.i) /\ op.p \in DOMAIN s.pairs
                                 THEN Ok(SetQ(s, c, SetItem(q, op.i, op.p))) ELSE No(s)
         [] op.op = "delitem" -> IF ItemOk(n, op.i) THEN Ok(SetQ(s, c, DelItem(q, op.i))) ELSE No(s)
         [] op.op = "getslice" -> IF op.k = 0 THEN No(s) ELSE Ok(Derive(s, c, op.e, GetSl(q, op.i, op.j, op.k)))
         [] op.op = "delslice" -> IF op.k = 0 THEN No(s) ELSE Ok(SetQ(s, c, DelSl(q, op.i, op.j, op.k)))
         [] op.op = "setslice" ->
              IF op.k = 0 \/ ~Compatible(s, c, op.d) THEN No(s)
              ELSE LET r == s.cor[op.d].q IN
                   \* an explicit step (1 included) makes it an extended slice, as in the platform's list
                   IF op.k = NoIdx THEN Ok(SetQ(s, c, SetSl(q, op.i, op.j, r)))
                   ELSE IF Len(r) = Len(SlIdx(n, op.i, op.j, op.k))
                        THEN Ok(SetQ(s, c, SetExt(q, op.i, op.j, op.k, r))) ELSE No(s)
         [] op.op = "add" -> IF Compatible(s, c, op.d) THEN Ok(Derive(s, c, op.e, q \o s.cor[op.d].q)) ELSE No(s)
         [] op.op = "iadd" -> IF Compatible(s, c, op.d) THEN Ok(SetQ(s, c, q \o s.cor[op.d].q)) ELSE No(s)
         [] op.op \in {"mul", "rmul"} -> Ok(Derive(s, c, op.e, Times(q, op.n)))
         [] op.op = "imul" -> Ok(SetQ(s, c, Times(q, op.n)))
         [] op.op = "deepcopy" -> Ok(DeepCopy(s, c, op.e))
         \* changes of contents
         [] op.op = "align" -> Ok([s EXCEPT !.pairs[op.p].al = GP!AddAl("match", @, op.s, op.t, op.r)])
         [] op.op = "unalign" -> IF GP!Linked(s.pairs[op.p].al, op.s, op.t)
                                 THEN Ok([s EXCEPT !.pairs[op.p].al = GP!DelAl(@, op.s, op.t)]) ELSE No(s)
         [] op.op = "pairmeta" -> Ok([s EXCEPT !.pairs[op.p].meta = op.meta])
         [] op.op = "editmeta" -> Ok([s EXCEPT !.metas[op.m] = op.tok])       \* in place
         \* a corpus without meta-data gets them with its annotator
         [] op.op = "annot" -> IF s.cor[c].meta = "none"
                               THEN Ok([s EXCEPT !.metas = Upd(@, op.m, SetAnnot("m0", op.who, op.app)), !.cor[c].meta = op.m])
                               ELSE Ok([s EXCEPT !.metas[s.cor[c].meta] = SetAnnot(@, op.who, op.app)])
         [] op.op = "setmeta" -> Ok([s EXCEPT !.cor[c].meta = op.m])
         [] op.op = "setrels" -> Ok([s EXCEPT !.cor[c].rels = op.rels])
         [] op.op = "look" -> Ok(s)

Empty == [cor |-> <<>>, pairs |-> <<>>, metas |-> <<>>]

\* ---------------------------------------------------------------- the model
CONSTANTS PairNames, MaxN, Hi, MaxDepth, Family
Lo == 0 - Hi
Steps == CASE Family = "get" -> {NoIdx, 0, 1, 2, 3, -1, -2}
           [] Family = "set" -> {NoIdx, 0, 1, 2, -1, -2}
           [] OTHER -> {1}
VARIABLES s, hist
vars == <<s, hist>>
View == <<s, Len(hist)>>

Idx == (Lo..Hi) \cup {NoIdx}
Seqs(P, n) == UNION {[1..m -> P] : m \in 0..n}
P0 == [p \in PairNames |-> [key |-> "k", al |-> {}, meta |-> "m0"]]

Ops1 == {[op |-> o, c |-> "c", p |-> p] : o \in {"append", "remove", "index", "count", "contains"}, p \in PairNames}
     \cup {[op |-> "append", c |-> "c", p |-> "!" \o x] : x \in {"none", "str", "list", "map"}}
     \cup {[op |-> o, c |-> "c", i |-> i, p |-> p] : o \in {"insert", "setitem"}, i \in Lo..Hi,
                                              p \in PairNames \cup {"!none", "!map"}}
     \cup {[op |-> "pop", c |-> "c", i |-> i] : i \in Idx}
     \cup {[op |-> o, c |-> "c", i |-> i] : o \in {"getitem", "delitem"}, i \in Lo..Hi}
     \cup {[op |-> o, c |-> "c"] : o \in {"reverse", "clear"}}
     \cup {[op |-> "iadd", c |-> "c", d |-> d] : d \in {"c", "d", "x", "!list", "!none", "!pair"}}
     \cup {[op |-> "add", c |-> "c", d |-> d, e |-> "e"] : d \in {"c", "d", "x", "!list", "!none", "!pair"}}
     \cup {[op |-> "extend", c |-> "c", d |-> d, q |-> <<>>] : d \in {"c", "d"}}
     \cup {[op |-> "extend", c |-> "c", d |-> "!iter", q |-> q] : q \in Seqs(PairNames, 2)}
     \cup {[op |-> o, c |-> "c", e |-> "e", n |-> m] : o \in {"mul", "rmul"}, m \in -1..3}
     \cup {[op |-> "imul", c |-> "c", n |-> m] : m \in -1..3}
OpsSl == {[op |-> "getslice", c |-> "c", e |-> "e", i |-> i, j |-> j, k |-> k] : i \in Idx, j \in Idx, k \in Steps}
      \cup {[op |-> "delslice", c |-> "c", i |-> i, j |-> j, k |-> k] : i \in Idx, j \in Idx, k \in Steps}
OpsSet == {[op |-> "setslice", c |-> "c", d |-> d, i |-> i, j |-> j, k |-> k] :
               i \in Idx, j \in Idx, k \in Steps, d \in {"c", "d", "x", "!list"}}
\* contents and copies: every corpus, every pair that exists
OpsDeep == {[op |-> "deepcopy", c |-> c, e |-> e] : c \in {"c", "e"} \cap DOMAIN s.cor, e \in {"e", "f"} \ DOMAIN s.cor}
      \cup {[op |-> "align", c |-> "", p |-> p, s |-> "a", t |-> t, r |-> "equals"] :
                   p \in DOMAIN s.pairs, t \in {"a", "b"}}
      \cup {[op |-> "unalign", c |-> "", p |-> p, s |-> "a", t |-> "b"] : p \in DOMAIN s.pairs}
      \cup {[op |-> "pairmeta", c |-> "", p |-> p, meta |-> "m3", inplace |-> i] : p \in DOMAIN s.pairs, i \in {0, 1}}
      \cup {[op |-> "editmeta", c |-> "", m |-> m, tok |-> t] : m \in DOMAIN s.metas, t \in {"m1", "m2"}}
      \cup {[op |-> "annot", c |-> c, m |-> "a" \o c, who |-> "Ann", app |-> a] : c \in {"c", "e"} \cap DOMAIN s.cor, a \in BOOLEAN}
      \cup {[op |-> "setmeta", c |-> c, m |-> m] : c \in {"c", "e"} \cap DOMAIN s.cor, m \in {"none", "n1"}}
      \cup {[op |-> "setrels", c |-> c, rels |-> <<"equals", "intersects">>] : c \in {"c", "e"} \cap DOMAIN s.cor}
      \cup {[op |-> "delitem", c |-> c, i |-> 0] : c \in {"c", "e"} \cap DOMAIN s.cor}
      \cup {[op |-> "append", c |-> c, p |-> p] : c \in {"c", "e"} \cap DOMAIN s.cor, p \in DOMAIN s.pairs}
OpsOf == CASE Family = "ops" -> Ops1 [] Family = "get" -> OpsSl [] Family = "set" -> OpsSet [] Family = "deep" -> OpsDeep

ModelStart(q, d) == [cor |-> [x \in {"c", "d", "x"} |->
                         [q |-> IF x = "c" THEN q ELSE d,
                          rels |-> IF x = "x" THEN <<"equals", "restates">> ELSE <<"equals">>,
                          meta |-> IF Family = "deep" THEN "n1" ELSE "none"]],
                     pairs |-> P0, metas |-> IF Family = "deep" THEN ("n1" :> "m1") ELSE <<>>]
Init == /\ \E q \in Seqs(PairNames, MaxN), d \in Seqs({CHOOSE p \in PairNames : TRUE}, IF Family = "set" THEN 3 ELSE 1) :
              s = ModelStart(q, d) /\ hist = <<[c |-> q, d |-> d]>>
Next == /\ Len(hist) <= MaxDepth
        /\ \E op \in OpsOf : s' = Apply(s, op).st /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars

Emit == PrintT("PLAN " \o ToJson([c |-> hist'[1].c, d |-> hist'[1].d, ops |-> Tail(hist')]))
Op == hist'[Len(hist')]
Fld(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

\* ---------------------------------------------------------------- properties
\* operations never touch another corpus, and derived corpora carry relations and meta-data
Others == [][\A x \in DOMAIN s.cor : (x # Op.c /\ x # Fld(Op, "e", "")) => s'.cor[x] = s.cor[x]]_vars
Derived == [][(Op.op \in {"getslice", "add", "mul", "rmul"} /\ Apply(s, Op).ok) =>
                  (s'.cor["e"].rels = s.cor["c"].rels /\ s'.cor["e"].meta = s.cor["c"].meta)]_vars
Refused == [][(~Apply(s, Op).ok) => s' = s]_vars
\* editing one pair or meta-data element never shows in another
Independent == [][/\ \A p \in DOMAIN s.pairs : s'.pairs[p] # s.pairs[p] => p = Fld(Op, "p", "")
                  /\ \A m \in DOMAIN s.metas : s'.metas[m] # s.metas[m] =>
                        m = IF Op.op = "annot" THEN s.cor[Op.c].meta ELSE Fld(Op, "m", "")]_vars
\* the annotators named are there, after those that were there; nothing else of the meta-data changes
Annotated == [][Op.op = "annot" =>
                  LET old == MetaTok(s, s.cor[Op.c].meta)  new == MetaTok(s', s'.cor[Op.c].meta) IN
                  /\ TokBase(new) = IF old = "none" THEN "m0" ELSE TokBase(old)
                  /\ \E pre \in {"", Annot(old) \o " + "} : Annot(new) = pre \o Op.who
                  /\ (Op.app /\ Annot(old) # "") => Annot(new) = Annot(old) \o " + " \o Op.who]_vars
\* a deep copy is equal and shares no pair and no meta-data
CopyFresh == [][Op.op = "deepcopy" =>
                  /\ CorEq(s', Op.e, Op.c) /\ CorEq(s', Op.c, Op.e)
                  /\ SeqSet(s'.cor[Op.e].q) \cap SeqSet(s'.cor[Op.c].q) = {}
                  /\ s'.cor[Op.c].meta # "none" => s'.cor[Op.e].meta # s'.cor[Op.c].meta]_vars
EqEquivalence == \A c, d \in DOMAIN s.cor :
                  /\ CorEq(s, c, c) /\ (CorEq(s, c, d) <=> CorEq(s, d, c))
                  /\ \A e \in DOMAIN s.cor : CorEq(s, c, d) /\ CorEq(s, d, e) => CorEq(s, c, e)
\* laws that tie the operations to one another
Laws == \A q \in {s.cor["c"].q} :
          /\ GetSl(q, NoIdx, NoIdx, NoIdx) = q
          /\ GetSl(q, NoIdx, NoIdx, -1) = Rev(q)
          /\ \A i \in Idx, j \in Idx :
                /\ Len(GetSl(q, i, j, 1)) + Len(DelSl(q, i, j, 1)) = Len(q)
                /\ SetSl(q, i, j, <<>>) = DelSl(q, i, j, 1)
                /\ \A k \in Steps \ {0} :
                      /\ Len(GetSl(q, i, j, k)) + Len(DelSl(q, i, j, k)) = Len(q)
                      /\ SetExt(q, i, j, k, GetSl(q, i, j, k)) = q
          /\ \A i \in 0..Len(q) : GetSl(q, NoIdx, i, 1) \o GetSl(q, i, NoIdx, 1) = q
          /\ \A i \in Lo..Hi, p \in PairNames : ItemOk(Len(q) + 1, i) /\ i >= 0 => DelItem(InsertAt(q, i, p), i) = q
=============================================================================
