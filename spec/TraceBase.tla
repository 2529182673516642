----------------------------- MODULE TraceBase -----------------------------
(* Total-verdict trace validation.  A trace file holds recorded runs of the
   implementation: a "reset" event (with the run's parameters), one event per
   public call, and an "end" event.  The specification under test supplies
     Start(ev)      abstract state after the reset event
     Failing(s,ev)  the set of names of the clauses that event ev violates in s
     After(s,ev)    the abstract state after ev
   A violating event is recorded (run, position, clause names) and the rest of
   that run is skipped; every other run is still judged. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Start(_), Failing(_, _), After(_, _)

VARIABLES ti, st, bad, skip

tvars == <<ti, st, bad, skip>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
NEv   == Len(Trace)

Nil == "nil"

TInit == ti = 1 /\ st = Nil /\ bad = <<>> /\ skip = [run |-> "", step |-> 0, on |-> FALSE]

Reset(ev) == /\ st' = Start(ev)
             /\ bad' = bad
             /\ skip' = [run |-> ev.run, step |-> 0, on |-> FALSE]

Judge(ev) ==
    LET f == IF ev.fatal # "" THEN {"unexpected exception " \o ev.fatal} ELSE Failing(st, ev) IN
    IF f = {}
    THEN /\ st' = After(st, ev)
         /\ bad' = bad
         /\ skip' = [skip EXCEPT !.step = @ + 1]
    ELSE /\ st' = st
         /\ bad' = IF Len(bad) < 25
                   THEN Append(bad, [run |-> skip.run, i |-> ti, step |-> skip.step + 1,
                                     clauses |-> SetToSeq(f)])
                   ELSE bad
         /\ skip' = [skip EXCEPT !.on = TRUE]

TStep == /\ ti <= NEv
         /\ ti' = ti + 1
         /\ LET ev == Trace[ti] IN
            IF ev.op = "reset" THEN Reset(ev)
            ELSE IF skip.on \/ ev.op = "end" THEN UNCHANGED <<st, bad, skip>>
            ELSE Judge(ev)

TDone == /\ ti = NEv + 1
         /\ ti' = ti + 1
         /\ PrintT("VERDICT " \o ToJson([n |-> NEv, bad |-> bad]))
         /\ UNCHANGED <<st, bad, skip>>

TNext == TStep \/ TDone
TSpec == TInit /\ [][TNext]_tvars
TypeOK == ti \in 1..(NEv + 2) /\ skip.on \in BOOLEAN
=============================================================================
