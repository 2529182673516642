----------------------------- MODULE CacheConc -----------------------------
(* Threads sharing one generic cache.  Every operation is a call, a number of steps on the shared
   cache, and a return; with Locked the steps are taken under a reentrant lock.  The model records the
   history of calls and returns; the law is that every complete history is linearizable (Cache!Lin).

   The steps of an operation:
     insert    make room, entry by entry; store
     gen       look up; run the generator (its own operations one by one); make room; store
     reconf    set the limits; drop entries one by one
     collect   drop the expired entries one by one
     fetch, remove, has, size, keys, clear: one step each
   The clock stands still while the threads run: it is not an operation of the cache, and collect reads it
   anew for every entry.                                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Locked, Size
VARIABLES cc, conf, prog, lock, pc, at, todo, h, now
vars == <<cc, conf, prog, lock, pc, at, todo, h, now>>
C == INSTANCE Cache WITH Names <- {}, Limits <- {}, Lives <- {}, Depth <- 0, c <- cc, prev <- cc, conf <- conf, hist <- h
T == {1, 2}

Ins(k, v) == [op |-> "insert", k |-> k, v |-> v]
Fet(k) == [op |-> "fetch", k |-> k, fail |-> "no", miss |-> TRUE]
Gen(k, v, b) == [op |-> "gen", k |-> k, v |-> v, body |-> b, boom |-> FALSE]
\* operations of thread t at position p; values tell them apart
Ops(n) == {Ins("a", n), Ins("b", n), Fet("a"), Fet("b"), Gen("a", n, <<>>), Gen("b", n, <<Ins("a", 10 * n)>>),
           [op |-> "remove", k |-> "a"], [op |-> "has", k |-> "b"], [op |-> "reconf", max |-> 1, exp |-> 0],
           [op |-> "collect"], [op |-> "clear"], [op |-> "size"],
           [op |-> "keys", names |-> <<"a", "b", "c">>]}
Progs(t, n) == IF n = 1 THEN {<<o>> : o \in Ops(10 * t)} ELSE {<<o1, o2>> : o1 \in Ops(10 * t), o2 \in Ops(10 * t + 1)}
Pre == <<Ins("a", 1), [op |-> "tick", n |-> 2], Ins("b", 2)>>
Start(x) == C!Seqn(C!Empty(x.max, x.exp, FALSE), Pre)
Confs == {[max |-> 2, exp |-> 0], [max |-> 0, exp |-> 1], [max |-> 2, exp |-> 1]}

Init == /\ conf \in Confs
        /\ cc = Start(conf)
        /\ prog \in {<<p, q>> : p \in Progs(1, Size[1]), q \in Progs(2, Size[2])}
        /\ lock = 0
        /\ pc = [t \in T |-> "idle"]
        /\ at = [t \in T |-> 0]
        /\ todo = [t \in T |-> <<>>]
        /\ h = <<>>
        /\ now = 0

\* the steps of an operation, found when it begins; each is [f, ...]
Steps(o) ==
    CASE o.op = "insert" -> <<[f |-> "room"], [f |-> "put", k |-> o.k, v |-> o.v]>>
      [] o.op = "gen" -> <<[f |-> "look"]>>
      [] o.op = "reconf" -> <<[f |-> "limits"], [f |-> "drop"]>>
      [] o.op = "collect" -> <<[f |-> "weed"]>>
      [] OTHER -> <<[f |-> "all"]>>

Call(t) == /\ pc[t] = "idle" /\ at[t] < Len(prog[t])
           /\ LET o == prog[t][at[t] + 1] IN
              /\ h' = Append(h, o @@ [th |-> t, call |-> now, ret |-> 0, done |-> FALSE, res |-> ""])
              /\ todo' = [todo EXCEPT ![t] = Steps(o)]
           /\ at' = [at EXCEPT ![t] = at[t] + 1]
           /\ pc' = [pc EXCEPT ![t] = IF Locked THEN "wait" ELSE "run"]
           /\ now' = now + 1
           /\ UNCHANGED <<cc, conf, prog, lock>>
Acquire(t) == /\ pc[t] = "wait" /\ lock = 0
              /\ lock' = t
              /\ pc' = [pc EXCEPT ![t] = "run"]
              /\ UNCHANGED <<cc, conf, prog, at, todo, h, now>>

Mine(t) == CHOOSE j \in 1..Len(h) : h[j].th = t /\ ~h[j].done
Go(t, c2, more, res) == /\ cc' = c2
                        /\ todo' = [todo EXCEPT ![t] = more]
                        /\ h' = IF res = "?" THEN h ELSE [h EXCEPT ![Mine(t)].res = res]
                        /\ UNCHANGED <<conf, prog, lock, pc, at, now>>
Step(t) ==
    /\ pc[t] = "run" /\ todo[t] # <<>>
    /\ LET o == prog[t][at[t]]
           x == Head(todo[t])
           rest == Tail(todo[t])
           Over(n) == cc.max > 0 /\ Len(cc.ent) + n > cc.max /\ cc.ent # <<>>
           old == {j \in 1..Len(cc.ent) : C!Expired(cc, cc.ent[j])}
       IN CASE x.f = "all" -> LET d == C!Do(cc, o) IN Go(t, d.s, rest, d.r)
            [] x.f = "do" -> Go(t, C!Do(cc, x.o).s, rest, "?")
            [] x.f = "room" -> IF ~C!Has(cc, o.k) /\ Over(1) THEN Go(t, [cc EXCEPT !.ent = Tail(cc.ent)], todo[t], "?")
                               ELSE Go(t, cc, rest, "?")
            [] x.f = "put" -> Go(t, [cc EXCEPT !.ent = Append(C!Without(cc.ent, x.k), [k |-> x.k, v |-> x.v, t |-> cc.now])],
                                 rest, IF o.op = "gen" THEN C!Val(o.v) ELSE "")
            [] x.f = "limits" -> Go(t, [cc EXCEPT !.max = o.max, !.exp = o.exp], rest, "?")
            [] x.f = "drop" -> IF Over(0) THEN Go(t, [cc EXCEPT !.ent = Tail(cc.ent)], todo[t], "?") ELSE Go(t, cc, rest, "")
            [] x.f = "weed" -> IF old # {} THEN Go(t, C!Del(cc, cc.ent[CHOOSE j \in old : TRUE].k), todo[t], "?") ELSE Go(t, cc, rest, "")
            [] x.f = "look" -> IF C!Hit(cc, o.k) THEN Go(t, C!Touch(cc, o.k), rest, C!Val(cc.ent[C!At(cc, o.k)].v))
                               ELSE Go(t, [C!Del(cc, o.k) EXCEPT !.calls = @ + 1],
                                       [j \in 1..Len(o.body) |-> [f |-> "do", o |-> o.body[j]]]
                                         \o <<[f |-> "room"], [f |-> "put", k |-> o.k, v |-> o.v]>>, "?")
Return(t) == /\ pc[t] = "run" /\ todo[t] = <<>>
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ lock' = IF Locked THEN 0 ELSE lock
             /\ h' = [h EXCEPT ![Mine(t)].done = TRUE, ![Mine(t)].ret = now]
             /\ now' = now + 1
             /\ UNCHANGED <<cc, conf, prog, at, todo>>
Next == \E t \in T : Call(t) \/ Acquire(t) \/ Step(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
View == vars

Done == \A t \in T : pc[t] = "idle" /\ at[t] = Len(prog[t])
\* the final state is checked with the results: whole-cache observations after the threads have ended
Final == <<[op |-> "keys", names |-> <<"a", "b", "c">>], [op |-> "reconf", max |-> 1, exp |-> 0],
           [op |-> "keys", names |-> <<"a", "b", "c">>], [op |-> "calls"]>>
RECURSIVE Tale(_, _, _)
Tale(s, q, n) == IF q = <<>> THEN <<>> ELSE
    <<Head(q) @@ [call |-> n, ret |-> n + 1, done |-> TRUE, res |-> C!Do(s, Head(q)).r]>> \o Tale(C!Do(s, Head(q)).s, Tail(q), n + 2)
Whole == h \o Tale(cc, Final, now)
Linearizable == Done => C!Lin(Start(conf), Whole, 1..Len(Whole))
Bounded == Done /\ cc.max > 0 => Len(cc.ent) <= cc.max
Mutex == Locked => \A t \in T : pc[t] = "run" => lock = t
NoStuck == ~Done => ENABLED Next
Emit == (h = <<>> /\ h' # <<>> /\ h'[1].th = 1) =>
          PrintT("PLAN " \o ToJson([max |-> conf.max, exp |-> conf.exp, pre |-> Pre, progs |-> prog]))
Size11 == <<1, 1>>
Size21 == <<2, 1>>
Size22 == <<2, 2>>
=============================================================================
