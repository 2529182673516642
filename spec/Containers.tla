----------------------------- MODULE Containers -----------------------------
(* Multiset counters (daeso.thirdparty.counter) and ordered dictionaries (daeso.thirdparty.odict).

   State: bag, counters by name, each a function from items to counts (an item may be held with a count of
   zero or less); od, ordered dictionaries by name, each a sequence of [k, v] in the order in which the keys came in. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
None == <<>>

\* ---------------------------------------------------------------- counters
Cnt(b, k) == IF k \in DOMAIN b THEN b[k] ELSE 0
Count(q, k) == Cardinality({i \in 1..Len(q) : q[i] = k})
Elems(q) == {q[i] : i \in 1..Len(q)}
\* a list of [k, n], later entries replacing earlier ones
RECURSIVE OfPairs(_)
OfPairs(q) == IF q = <<>> THEN None
              ELSE LET f == OfPairs(SubSeq(q, 1, Len(q) - 1)) IN Upd(f, q[Len(q)].k, q[Len(q)].n)
\* add counts; items of g count even when their count is zero
Tally(b, g) == [k \in DOMAIN b \cup DOMAIN g |-> Cnt(b, k) + Cnt(g, k)]
FromIter(q) == [k \in Elems(q) |-> Count(q, k)]
\* the source of an initialisation or update
Source(s, x) == CASE x.t = "none" -> None [] x.t = "iter" -> FromIter(x.q) [] x.t = "map" -> OfPairs(x.q)
                  [] x.t = "bag" -> s.bag[x.b]
PosOnly(b) == [k \in {k \in DOMAIN b : b[k] > 0} |-> b[k]]
All(x, y) == DOMAIN x \cup DOMAIN y
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Sum(x, y) == PosOnly([k \in All(x, y) |-> Cnt(x, k) + Cnt(y, k)])
Difference(x, y) == PosOnly([k \in All(x, y) |-> Cnt(x, k) - Cnt(y, k)])
Union(x, y) == PosOnly([k \in All(x, y) |-> Max(Cnt(x, k), Cnt(y, k))])
Meet(x, y) == PosOnly([k \in All(x, y) |-> Min(Cnt(x, k), Cnt(y, k))])
Same(x, y) == DOMAIN x = DOMAIN y /\ \A k \in DOMAIN x : x[k] = y[k]
\* r, a sequence of [k, n], lists the n most common items of b (n < 0: all of them)
MostCommon(b, n, r) ==
    /\ Len(r) = (IF n < 0 THEN Cardinality(DOMAIN b) ELSE Min(n, Cardinality(DOMAIN b)))
    /\ \A i \in 1..Len(r) : r[i].k \in DOMAIN b /\ r[i].n = b[r[i].k]
    /\ \A i, j \in 1..Len(r) : i < j => r[i].k # r[j].k /\ r[i].n >= r[j].n
    /\ \A k \in DOMAIN b : (\A i \in 1..Len(r) : r[i].k # k) => \A i \in 1..Len(r) : b[k] <= r[i].n
IsElements(b, r) == Elems(r) = DOMAIN PosOnly(b) /\ \A k \in DOMAIN PosOnly(b) : Count(r, k) = b[k]

\* ---------------------------------------------------------------- ordered dictionaries
Ks(d) == {d[i].k : i \in 1..Len(d)}
Pos(d, k) == CHOOSE i \in 1..Len(d) : d[i].k = k
Val(d, k) == d[Pos(d, k)].v
SetItem(d, k, v) == IF k \in Ks(d) THEN [d EXCEPT ![Pos(d, k)] = [k |-> k, v |-> v]] ELSE Append(d, [k |-> k, v |-> v])
DelItem(d, k) == SelectSeq(d, LAMBDA e : e.k # k)
RECURSIVE SetAll(_, _)
SetAll(d, q) == IF q = <<>> THEN d ELSE SetAll(SetItem(d, Head(q).k, Head(q).v), Tail(q))
SameDict(d, e) == Ks(d) = Ks(e) /\ \A k \in Ks(d) : Val(d, k) = Val(e, k)
Front(q) == SubSeq(q, 1, Len(q) - 1)
Pairs(s, x) == IF x.t = "od" THEN s.od[x.d] ELSE x.q

\* ---------------------------------------------------------------- operations: [s, r]; r = <<tag, value>>
R(s, t, v) == [s |-> s, r |-> [t |-> t, v |-> v]]
B(s, n, f) == [s EXCEPT !.bag = Upd(s.bag, n, f)]
D(s, n, d) == [s EXCEPT !.od = Upd(s.od, n, d)]
Do(s, o) ==
    CASE o.op = "bnew"    -> R(B(s, o.b, Tally(Source(s, o.src), OfPairs(o.kw))), "ok", 0)
      [] o.op = "bupdate" -> R(B(s, o.b, Tally(Tally(s.bag[o.b], Source(s, o.src)), OfPairs(o.kw))), "ok", 0)
      [] o.op = "bset"    -> R(B(s, o.b, Upd(s.bag[o.b], o.k, o.n)), "ok", 0)
      [] o.op = "binc"    -> R(B(s, o.b, Upd(s.bag[o.b], o.k, Cnt(s.bag[o.b], o.k) + o.n)), "ok", 0)
      [] o.op = "bdel"    -> R(B(s, o.b, Cut(s.bag[o.b], o.k)), "ok", 0)
      [] o.op = "bget"    -> R(s, "int", Cnt(s.bag[o.b], o.k))
      [] o.op = "bpop"    -> IF o.k \in DOMAIN s.bag[o.b] THEN R(B(s, o.b, Cut(s.bag[o.b], o.k)), "int", s.bag[o.b][o.k])
                             ELSE R(s, "KeyError", 0)
      [] o.op = "bclear"  -> R(B(s, o.b, None), "ok", 0)
      [] o.op = "bcopy"   -> R(B(s, o.b, s.bag[o.x]), "ok", 0)
      [] o.op = "bbin"    -> R(B(s, o.b, CASE o.f = "+" -> Sum(s.bag[o.x], s.bag[o.y]) [] o.f = "-" -> Difference(s.bag[o.x], s.bag[o.y])
                                          [] o.f = "|" -> Union(s.bag[o.x], s.bag[o.y]) [] o.f = "&" -> Meet(s.bag[o.x], s.bag[o.y])), "ok", 0)
      [] o.op = "bbad"    -> R(s, "TypeError", 0)
      [] o.op = "bfromkeys" -> R(s, "NotImplementedError", 0)
      \* whether an item counted zero times differs from an item not counted is left to the platform's dict
      [] o.op = "beq"     -> IF \E n \in {o.x, o.y} : \E k \in DOMAIN s.bag[n] : s.bag[n][k] = 0 THEN R(s, "any", 0)
                             ELSE R(s, "bool", Same(s.bag[o.x], s.bag[o.y]))
      [] o.op \in {"bmost", "belements"} -> R(s, "any", 0)
      [] o.op = "onew"    -> R(D(s, o.d, SetAll(SetAll(<<>>, Pairs(s, o.src)), o.kw)), "ok", 0)
      [] o.op = "oupdate" -> R(D(s, o.d, SetAll(SetAll(s.od[o.d], Pairs(s, o.src)), o.kw)), "ok", 0)
      [] o.op = "oset"    -> R(D(s, o.d, SetItem(s.od[o.d], o.k, o.v)), "ok", 0)
      [] o.op = "odel"    -> IF o.k \in Ks(s.od[o.d]) THEN R(D(s, o.d, DelItem(s.od[o.d], o.k)), "ok", 0) ELSE R(s, "KeyError", 0)
      [] o.op = "oget"    -> IF o.k \in Ks(s.od[o.d]) THEN R(s, "int", Val(s.od[o.d], o.k))
                             ELSE IF o.dflt THEN R(s, "int", 77) ELSE R(s, "KeyError", 0)
      [] o.op = "opop"    -> IF o.k \in Ks(s.od[o.d]) THEN R(D(s, o.d, DelItem(s.od[o.d], o.k)), "int", Val(s.od[o.d], o.k))
                             ELSE IF o.dflt THEN R(s, "int", 77) ELSE R(s, "KeyError", 0)
      [] o.op = "opopitem" -> IF s.od[o.d] = <<>> THEN R(s, "KeyError", 0)
                              ELSE R(D(s, o.d, Front(s.od[o.d])), "item", s.od[o.d][Len(s.od[o.d])])
      [] o.op = "osetdefault" -> IF o.k \in Ks(s.od[o.d]) THEN R(s, "int", Val(s.od[o.d], o.k))
                                 ELSE R(D(s, o.d, SetItem(s.od[o.d], o.k, o.v)), "int", o.v)
      [] o.op = "oclear"  -> R(D(s, o.d, <<>>), "ok", 0)
      [] o.op = "ocopy"   -> R(D(s, o.d, s.od[o.x]), "ok", 0)
      [] o.op = "ofromkeys" -> R(D(s, o.d, SetAll(<<>>, [i \in 1..Len(o.q) |-> [k |-> o.q[i], v |-> 5]])), "ok", 0)
      [] o.op = "oeq"     -> R(s, "bool", SameDict(s.od[o.x], s.od[o.y]))

\* ---------------------------------------------------------------- the model
CONSTANTS Items, Depth, Kind
VARIABLES s, prev, hist
vars == <<s, prev, hist>>

Names == {"p", "q"}
Nothing == [t |-> "none", q |-> <<>>]
BagOps ==
    {[op |-> "bnew", b |-> b, src |-> x, kw |-> <<>>] : b \in Names,
        x \in {Nothing} \cup {[t |-> "iter", q |-> <<i, j>>] : i, j \in Items}}
    \cup {[op |-> "bupdate", b |-> b, src |-> [t |-> "bag", b |-> c], kw |-> <<>>] : b, c \in Names}
    \cup {[op |-> "bupdate", b |-> b, src |-> [t |-> "map", q |-> <<[k |-> i, n |-> n]>>], kw |-> <<>>] : b \in Names, i \in Items, n \in {-1, 2}}
    \cup {[op |-> "bset", b |-> b, k |-> i, n |-> n] : b \in Names, i \in Items, n \in {0, 3}}
    \cup {[op |-> "bdel", b |-> b, k |-> i] : b \in Names, i \in Items}
    \cup {[op |-> "bbin", b |-> b, f |-> f, x |-> "p", y |-> y] : b \in Names, f \in {"+", "-", "|", "&"}, y \in Names}
    \cup {[op |-> "bcopy", b |-> "q", x |-> "p"]}
DictOps ==
    {[op |-> "oset", d |-> d, k |-> i, v |-> Len(hist)] : d \in Names, i \in Items}
    \cup {[op |-> "odel", d |-> d, k |-> i] : d \in Names, i \in Items}
    \cup {[op |-> "opop", d |-> d, k |-> i, dflt |-> TRUE] : d \in Names, i \in Items}
    \cup {[op |-> "osetdefault", d |-> d, k |-> i, v |-> 50] : d \in Names, i \in Items}
    \cup {[op |-> "opopitem", d |-> d] : d \in Names}
    \cup {[op |-> "ocopy", d |-> "q", x |-> "p"]}
    \cup {[op |-> "oupdate", d |-> d, src |-> [t |-> "od", d |-> e], kw |-> <<>>] : d, e \in Names}
    \cup {[op |-> "onew", d |-> d, src |-> [t |-> "pairs", q |-> <<[k |-> i, v |-> 8], [k |-> j, v |-> 9]>>], kw |-> <<>>] : d \in Names, i, j \in Items}

Init == /\ s = [bag |-> [n \in Names |-> None], od |-> [n \in Names |-> <<>>]]
        /\ prev = s
        /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in (IF Kind = "bag" THEN BagOps ELSE DictOps) :
              /\ s' = Do(s, o).s
              /\ prev' = s
              /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
View == <<s, Len(hist)>>
Op == hist[Len(hist)]
P == s.bag["p"]
Q == s.bag["q"]

\* laws of multisets
Algebra == /\ Same(Sum(P, Q), Sum(Q, P)) /\ Same(Union(P, Q), Union(Q, P)) /\ Same(Meet(P, Q), Meet(Q, P))
           /\ (\A k \in All(P, Q) : Cnt(P, k) >= 0 /\ Cnt(Q, k) >= 0)
                => /\ Same(Sum(Union(P, Q), Meet(P, Q)), Sum(P, Q))
                   /\ Same(Sum(Difference(P, Q), Meet(P, Q)), PosOnly(P))
                   /\ Same(Sum(Difference(P, Q), Q), Union(P, Q))
\* laws of ordered dictionaries
NoTwice == \A n \in Names : Cardinality(Ks(s.od[n])) = Len(s.od[n])
\* keys that stay keep their order; a key that comes in comes last
Order == \A n \in Names : (hist # <<>> /\ Op.op \notin {"ocopy", "onew", "oupdate"}) =>
    \A i, j \in 1..Len(s.od[n]) : i < j =>
        LET a == s.od[n][i].k  b == s.od[n][j].k IN
        IF b \in Ks(prev.od[n]) THEN a \in Ks(prev.od[n]) /\ Pos(prev.od[n], a) < Pos(prev.od[n], b) ELSE TRUE
Emit == Len(hist') = Depth => PrintT("PLAN " \o ToJson(hist'))
=============================================================================
