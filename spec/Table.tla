------------------------------- MODULE Table -------------------------------
(* Statistics tables (daeso.stats.table): typed columns that grow together.
   Real numbers are integers in units of 1/100; overall -1 stands for None.
   heap: object -> [cls, rows |-> sequence of (column -> cell), ov |-> column -> overall]
   files: object -> the table as last written by that object *)
EXTENDS Num, TLC, Json

CONSTANTS Objs, Vals, MaxRows, MaxLen
VARIABLES heap, files, hist
tvars0 == <<heap, files, hist>>

Columns(cls) ==
  CASE cls = "T" -> <<<<"NAME", "string">>, <<"C1", "count">>, <<"C2", "count">>, <<"P", "percent">>, <<"A", "average">>>>
    [] cls = "N" -> <<<<"C1", "count">>, <<"A", "average">>, <<"C2", "count">>>>
    [] cls = "pgc" -> <<<<"CORPUS", "string">>, <<"CGP", "count">>, <<"CGPFU", "count">>, <<"CGPFP", "count">>, <<"CGPUR", "count">>,
                        <<"PGPFU", "percent">>, <<"PGPFP", "percent">>, <<"PGPUR", "percent">>, <<"CNP", "count">>, <<"CEQ", "count">>,
                        <<"CRE", "count">>, <<"CGEN", "count">>, <<"CSPEC", "count">>, <<"CINT", "count">>, <<"PEQ", "percent">>,
                        <<"PRE", "percent">>, <<"PGEN", "percent">>, <<"PSPEC", "percent">>, <<"PINT", "percent">>>>
    [] cls = "gb" -> <<<<"BANK", "string">>, <<"CG", "count">>, <<"CGA", "count">>, <<"CGU", "count">>, <<"CGSA", "count">>, <<"CGMA", "count">>,
                       <<"CGUR", "count">>, <<"CGFP", "count">>, <<"PGA", "percent">>, <<"PGSA", "percent">>, <<"PGMA", "percent">>,
                       <<"PGUR", "percent">>, <<"PGFP", "percent">>, <<"CT", "count">>, <<"ATG", "average">>, <<"CN", "count">>,
                       <<"ANG", "average">>, <<"CNA", "count">>, <<"CNU", "count">>, <<"PNA", "percent">>>>
Names(cls) == {Columns(cls)[k][1] : k \in 1..Len(Columns(cls))}
Type(cls, c) == Columns(cls)[CHOOSE k \in 1..Len(Columns(cls)) : Columns(cls)[k][1] = c][2]
Default(ty) == IF ty = "string" THEN "" ELSE 0
EmptyRow(cls) == [c \in Names(cls) |-> Default(Type(cls, c))]
Rep(n, x) == [k \in 1..n |-> x]

New(cls, n) == [cls |-> cls, rows |-> Rep(n, EmptyRow(cls)), ov |-> [c \in Names(cls) |-> -1]]
Grow(t, n) == [t EXCEPT !.rows = @ \o Rep(n, EmptyRow(t.cls))]
Set(t, r, c, v) == [t EXCEPT !.rows[r][c] = v]
Sum(t, c) == SumSeq([k \in 1..Len(t.rows) |-> t.rows[k][c]])

\* the count column that an overall percentage or average relates to, and its numerator and scale
Ratio(cls, c) ==
  IF cls = "pgc" THEN
     CASE c \in {"PGPFU", "PGPFP", "PGPUR"} -> <<"C" \o SubSeq(c, 2, 5), "CGP", 100>>
       [] c \in {"PEQ", "PRE"} -> <<"C" \o SubSeq(c, 2, 3), "CNP", 100>>
       [] c \in {"PGEN", "PINT"} -> <<"C" \o SubSeq(c, 2, 4), "CNP", 100>>
       [] c = "PSPEC" -> <<"CSPEC", "CNP", 100>>
  ELSE IF cls = "gb" THEN
     CASE c \in {"PGA", "PGUR", "PGFP"} -> <<"C" \o SubSeq(c, 2, Len(c)), "CG", 100>>
       [] c \in {"PGSA", "PGMA"} -> <<"C" \o SubSeq(c, 2, 4), "CGA", 100>>
       [] c = "PNA" -> <<"CNA", "CN", 100>>
       [] c = "ATG" -> <<"CT", "CG", 1>>
       [] c = "ANG" -> <<"CN", "CG", 1>>
  ELSE <<"", "", 0>>
Overall(t, c) ==
  LET ty == Type(t.cls, c)
      q == Ratio(t.cls, c) IN
  IF ty = "count" THEN Sum(t, c)
  ELSE IF ty = "string" \/ q[3] = 0 THEN t.ov[c]
  ELSE IF Sum(t, q[2]) = 0 THEN t.ov[c]
  ELSE Frac(q[3] * Sum(t, q[1]), Sum(t, q[2]), 100)
Summarize(t) == [t EXCEPT !.ov = [c \in Names(t.cls) |-> Overall(t, c)]]
\* reading appends the rows of the file
Read(t, f) == [t EXCEPT !.rows = @ \o f.rows]

Apply(h, fs, ev) ==
  CASE ev.op = "new"   -> [heap |-> (ev.o :> New(ev.cls, ev.n)) @@ h, files |-> fs]
    [] ev.op = "grow"  -> [heap |-> [h EXCEPT ![ev.o] = Grow(@, ev.n)], files |-> fs]
    [] ev.op = "set"   -> [heap |-> [h EXCEPT ![ev.o] = Set(@, ev.r, ev.c, ev.v)], files |-> fs]
    [] ev.op = "inc"   -> [heap |-> [h EXCEPT ![ev.o] = Set(@, ev.r, ev.c, @.rows[ev.r][ev.c] + ev.v)], files |-> fs]
    [] ev.op = "sum"   -> [heap |-> [h EXCEPT ![ev.o] = Summarize(@)], files |-> fs]
    [] ev.op = "write" -> [heap |-> h, files |-> (ev.o :> h[ev.o]) @@ fs]
    [] ev.op = "read"  -> [heap |-> [h EXCEPT ![ev.o] = Read(@, fs[ev.p])], files |-> fs]

\* ---- model
Do(ev) == LET r == Apply(heap, files, ev) IN
          /\ Len(hist) < MaxLen
          /\ heap' = r.heap /\ files' = r.files /\ hist' = Append(hist, ev)
Init == heap = <<>> /\ files = <<>> /\ hist = <<>>
Next == \E o \in Objs :
    \/ /\ o \notin DOMAIN heap
       /\ \E n \in 0..1 : Do([op |-> "new", o |-> o, cls |-> "T", n |-> n])
    \/ /\ o \in DOMAIN heap
       /\ \/ Len(heap[o].rows) < MaxRows /\ Do([op |-> "grow", o |-> o, n |-> 1])
          \/ \E r \in 1..Len(heap[o].rows), v \in Vals, c \in {"C1", "P"} :
                Do([op |-> "set", o |-> o, r |-> r, c |-> c, v |-> v])
          \/ Do([op |-> "sum", o |-> o])
          \/ Do([op |-> "write", o |-> o])
          \/ \E p \in DOMAIN files : Len(heap[o].rows) + Len(files[p].rows) <= MaxRows /\ Do([op |-> "read", o |-> o, p |-> p])
Spec == Init /\ [][Next]_tvars0
View == <<heap, files>>
Emit == PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
Last == hist'[Len(hist')]
GrowKeeps == [][Last.op \in {"grow", "read"} =>
                  LET o == Last.o IN
                  /\ \A k \in 1..Len(heap[o].rows) : heap'[o].rows[k] = heap[o].rows[k]
                  /\ heap'[o].ov = heap[o].ov]_tvars0
OthersKept == [][\A o \in DOMAIN heap : Last.o # o => heap'[o] = heap[o]]_tvars0
Sums == [][Last.op = "sum" =>
             LET t == heap'[Last.o] IN
             /\ \A c \in {"C1", "C2"} : t.ov[c] = Sum(t, c)
             /\ t.ov["P"] = -1 /\ t.ov["A"] = -1
             /\ Summarize(t) = t]_tvars0
RoundTrip == \A o \in DOMAIN files : Read(New(files[o].cls, 0), files[o]).rows = files[o].rows
=============================================================================
