------------------------------- MODULE Cache -------------------------------
(* The generic cache (daeso.thirdparty.GenericCache): a bounded LRU cache with expiry.

   State: ent, the entries from least to most recently used, each [k, v, t] with t the time it was stored;
   max and exp, the size limit and the lifetime (0: none); dfail, whether a missing key is an error by
   default; now, the clock; calls, the number of values generated so far.

   Do(c, o) is the effect of operation o: [s |-> new state, r |-> its result].  A generator may itself use
   the cache (o.body) and may raise (o.boom). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Empty(max, exp, dfail) == [ent |-> <<>>, max |-> max, exp |-> exp, dfail |-> dfail, now |-> 0, calls |-> 0]

Keys(c) == {c.ent[j].k : j \in 1..Len(c.ent)}
Has(c, k) == k \in Keys(c)
At(c, k) == CHOOSE j \in 1..Len(c.ent) : c.ent[j].k = k
Without(q, k) == SelectSeq(q, LAMBDA e : e.k # k)
Expired(c, e) == c.exp > 0 /\ e.t + c.exp < c.now
\* keep the n most recently used
Last_n(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
Room(c, q, n) == IF c.max = 0 THEN q ELSE Last_n(q, IF c.max > n THEN c.max - n ELSE 0)

Put(c, k, v) ==
    LET q == IF Has(c, k) THEN Without(c.ent, k) ELSE Room(c, c.ent, 1) IN
    [c EXCEPT !.ent = Append(q, [k |-> k, v |-> v, t |-> c.now])]
Del(c, k) == [c EXCEPT !.ent = Without(c.ent, k)]
Touch(c, k) == [c EXCEPT !.ent = Append(Without(c.ent, k), c.ent[At(c, k)])]
Hit(c, k) == Has(c, k) /\ ~Expired(c, c.ent[At(c, k)])
\* value 0 stands for None, which is a value like any other
Val(n) == IF n = 0 THEN "None" ELSE "v" \o ToString(n)

R(s, r) == [s |-> s, r |-> r]
Fetch(c, o) ==
    IF Hit(c, o.k) THEN R(Touch(c, o.k), Val(c.ent[At(c, o.k)].v))
    ELSE R(Del(c, o.k), IF o.fail = "yes" \/ (o.fail = "default" /\ c.dfail) THEN "KeyError"
                        ELSE IF o.miss THEN "missing" ELSE "None")

RECURSIVE Bits(_, _)
Bits(c, q) == IF q = <<>> THEN ":" \o ToString(Len(c.ent)) ELSE (IF Has(c, Head(q)) THEN "1" ELSE "0") \o Bits(c, Tail(q))

RECURSIVE Path(_, _, _)
Path(q, j, sep) == IF j > Len(q) THEN "" ELSE (IF j > 1 THEN sep ELSE "") \o q[j].k \o Path(q, j + 1, sep)

RECURSIVE Do(_, _), Seqn(_, _)
Seqn(c, q) == IF q = <<>> THEN c ELSE Seqn(Do(c, Head(q)).s, Tail(q))
Generate(c, o) ==
    IF Hit(c, o.k) THEN R(Touch(c, o.k), Val(c.ent[At(c, o.k)].v))
    ELSE LET d == Seqn([Del(c, o.k) EXCEPT !.calls = @ + 1], o.body) IN
         IF o.boom THEN R(d, "Boom") ELSE R(Put(d, o.k, o.v), Val(o.v))
Do(c, o) ==
    CASE o.op = "insert"  -> R(Put(c, o.k, o.v), "")
      [] o.op = "fetch"   -> Fetch(c, o)
      [] o.op = "gen"     -> Generate(c, o)
      [] o.op = "remove"  -> R(Del(c, o.k), "")
      [] o.op = "has"     -> R(c, IF Has(c, o.k) THEN "yes" ELSE "no")
      [] o.op = "size"    -> R(c, ToString(Len(c.ent)))
      [] o.op = "calls"   -> R(c, ToString(c.calls))
      [] o.op = "keys"    -> R(c, Bits(c, o.names))
      [] o.op = "reconf"  -> R([c EXCEPT !.max = o.max, !.exp = o.exp,
                                         !.ent = IF o.max = 0 THEN c.ent ELSE Last_n(c.ent, o.max)], "")
      [] o.op = "clear"   -> R([c EXCEPT !.ent = <<>>], "")
      [] o.op = "collect" -> R([c EXCEPT !.ent = SelectSeq(c.ent, LAMBDA e : ~Expired(c, e))], "")
      [] o.op = "tick"    -> R([c EXCEPT !.now = @ + o.n], "")
      \* the list of least recently used objects by itself (LRUStock): pop only looks at its head
      [] o.op = "lru.update"  -> R([c EXCEPT !.ent = Append(Without(c.ent, o.k), [k |-> o.k, v |-> 0, t |-> 0])], "")
      [] o.op = "lru.discard" -> R(Del(c, o.k), "")
      [] o.op = "lru.pop"     -> R(c, IF c.ent = <<>> THEN "None" ELSE Head(c.ent).k)
      [] o.op = "lru.clear"   -> R([c EXCEPT !.ent = <<>>], "")
      [] o.op = "lru.list"    -> R(c, Path(c.ent, 1, ","))
      [] o.op = "lru.str"     -> R(c, Path([j \in 1..Len(c.ent) |-> c.ent[Len(c.ent) + 1 - j]], 1, " <- ")
                                       \o " / " \o Path(c.ent, 1, " -> "))

\* A concurrent history h: operations with the moments of their call and return (done: whether it returned)
\* and their results.  It is linearizable if some order of the operations todo that respects calls and
\* returns explains all results.
RECURSIVE Lin(_, _, _)
Lin(c, h, todo) ==
    todo = {} \/ \E j \in todo :
        /\ \A i \in todo : h[i].done => ~(h[i].ret < h[j].call)
        /\ LET d == Do(c, h[j]) IN (h[j].done => d.r = h[j].res) /\ Lin(d.s, h, todo \ {j})

\* ---------------------------------------------------------------- the model
CONSTANTS Names, Limits, Lives, Depth
VARIABLES c, prev, conf, hist
vars == <<c, prev, conf, hist>>

Ins(k, v) == [op |-> "insert", k |-> k, v |-> v]
Fet(k, f, m) == [op |-> "fetch", k |-> k, fail |-> f, miss |-> m]
Gen(k, v, b, x) == [op |-> "gen", k |-> k, v |-> v, body |-> b, boom |-> x]
Ops == LET n == Len(hist) + 1 IN
    {Ins(k, n) : k \in Names} \cup {Fet(k, "default", FALSE) : k \in Names}
    \cup {Gen(k, n, <<>>, FALSE) : k \in Names}
    \cup {Gen(k, n, <<Ins(j, 10 * n)>>, x) : k \in Names, j \in Names, x \in BOOLEAN}
    \cup {[op |-> "remove", k |-> k] : k \in Names}
    \cup {[op |-> "reconf", max |-> m, exp |-> x] : m \in Limits, x \in Lives}
    \cup {[op |-> "clear"], [op |-> "collect"], [op |-> "tick", n |-> 2]}

Init == /\ c \in {Empty(m, x, d) : m \in Limits, x \in Lives, d \in BOOLEAN}
        /\ prev = c
        /\ conf = [max |-> c.max, exp |-> c.exp, dfail |-> c.dfail]
        /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : LET d == Do(c, o) IN
              /\ c' = d.s
              /\ prev' = c
              /\ conf' = conf
              /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
View == <<[c EXCEPT !.calls = 0], Len(hist)>>

\* ---------------------------------------------------------------- laws, stated over the history
Bounded  == c.max > 0 => Len(c.ent) <= c.max
Distinct == Cardinality(Keys(c)) = Len(c.ent)
\* the last operation that stored k (directly or from a generator) stored the value now held
Stores(o) == IF o.op = "insert" THEN {<<o.k, o.v>>}
             ELSE IF o.op = "gen" THEN {<<o.k, o.v>>} \cup {<<o.body[i].k, o.body[i].v>> : i \in 1..Len(o.body)} ELSE {}
Fresh == \A j \in 1..Len(c.ent) : \E i \in 1..Len(hist) :
            /\ <<c.ent[j].k, c.ent[j].v>> \in Stores(hist[i])
            /\ \A h \in (i + 1)..Len(hist) : hist[h].op = "insert" => hist[h].k # c.ent[j].k
Op == hist[Len(hist)]
\* an entry leaves only when deleted, expired or pushed out, and then after all less recently used ones
Pushed == LET gone == {j \in 1..Len(prev.ent) : prev.ent[j].k \notin Keys(c)} IN
    (hist # <<>> /\ Op.op \in {"insert", "reconf"} /\ gone # {})
      => /\ c.max > 0 /\ Len(c.ent) = c.max
         /\ \A j \in gone : \A i \in 1..j : i \in gone
Kept == (hist # <<>> /\ Op.op \in {"fetch", "collect", "tick"})
           => \A j \in 1..Len(prev.ent) : prev.ent[j].k \in Keys(c) \/ Expired(prev, prev.ent[j])
\* a used entry comes last
Recent == (hist # <<>> /\ Op.op \in {"insert", "fetch", "gen"}) =>
             (Op.k \in Keys(c) => c.ent[Len(c.ent)].k = Op.k)
\* an operation that does not concern other keys leaves their order alone
Stable == \A a, b \in Keys(c) : (hist # <<>> /\ Op.op # "gen" /\ a \in Keys(prev) /\ b \in Keys(prev)
             /\ (Op.op \in {"insert", "fetch"} => Op.k \notin {a, b}))
                => (At(c, a) < At(c, b) <=> At(prev, a) < At(prev, b))
\* values are generated exactly when the key was missing or expired
Once == c.calls - prev.calls = (IF hist # <<>> /\ Op.op = "gen" /\ ~Hit(prev, Op.k) THEN 1 ELSE 0)
\* nothing expired is ever handed out, and nothing is refused that is present
Honest == \A k \in Names : LET r == Do(c, Fet(k, "no", TRUE)).r IN
             (r = "missing") <=> ~\E j \in 1..Len(c.ent) : c.ent[j].k = k /\ ~Expired(c, c.ent[j])

Emit == Len(hist') = Depth => PrintT("PLAN " \o ToJson([conf |-> conf, ops |-> hist']))
MCLimits == {0, 1, 2, 3}
MCLives == {0, 2}
=============================================================================
