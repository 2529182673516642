------------------------------ MODULE PtcDoc ------------------------------
(* Parallel text documents (daeso.ptc.document): two texts, links between their
   elements by position or by id, and display settings per tag.
   FT, TT: the texts (sequences of elements, see ElemTree).
   State: doc |-> [fn, method, links, elems, root], al |-> alignments injected
   into the loaded texts (per element of either text, in order), on |-> texts
   loaded; disk |-> documents written, by name. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS FTree, TTree, Files, MaxLen
VARIABLES s, hist
pvars == <<s, hist>>

E == INSTANCE ElemTree WITH Tags <- {}, Texts <- {}, Tails <- {}, MaxNodes <- 0, tree <- <<>>, hist <- <<>>

Sides == <<"from", "to">>
NoElems == [from |-> <<>>, to |-> <<>>]
NewDoc == [fn |-> <<"", "">>, method |-> "none", links |-> <<>>, elems |-> NoElems, root |-> [from |-> "", to |-> ""]]
Empty(t) == [k \in 1..Len(t) |-> <<>>]
Start0(ft, tt) == [doc |-> NewDoc, on |-> FALSE, af |-> Empty(ft), at |-> Empty(tt), disk |-> <<>>]

\* ---- references: <<tag, position or id>>, in the document always as text
ById(m) == m = "id"
Ref(t, k, m) == IF ById(m) THEN t[k].id ELSE ToString(E!Nth(t, k))
Deref(t, tag, r, m) == IF ById(m) THEN E!WithId(t, tag, r)
                       ELSE LET S == {k \in 1..Len(t) : t[k].tag = tag /\ ToString(E!Nth(t, k)) = r} IN
                            IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
Link(ft, tt, i, j, m) == <<ft[i].tag, Ref(ft, i, m), tt[j].tag, Ref(tt, j, m)>>

\* links of the document as pairs of elements
Pairs(x, ft, tt) == [k \in 1..Len(x.links) |-> LET l == x.links[k] IN
                       <<Deref(ft, l[1], l[2], x.method), Deref(tt, l[3], l[4], x.method)>>]
Inject(st, ft, tt) ==
    LET ps == Pairs(st.doc, ft, tt)
        to(i)   == SelectSeq(ps, LAMBDA p : p[1] = i)
        from(j) == SelectSeq(ps, LAMBDA p : p[2] = j) IN
    [st EXCEPT !.af = [i \in 1..Len(ft) |-> @[i] \o [k \in 1..Len(to(i)) |-> to(i)[k][2]]],
               !.at = [j \in 1..Len(tt) |-> @[j] \o [k \in 1..Len(from(j)) |-> from(j)[k][1]]]]
RECURSIVE Flat(_, _)
Flat(af, i) == IF i > Len(af) THEN <<>> ELSE [k \in 1..Len(af[i]) |-> <<i, af[i][k]>>] \o Flat(af, i + 1)
Extract(st, ft, tt) ==
    LET f == Flat(st.af, 1) IN
    [st EXCEPT !.doc.links = [k \in 1..Len(f) |-> Link(ft, tt, f[k][1], f[k][2], st.doc.method)]]
Load(st, ft, tt) == [st EXCEPT !.on = TRUE, !.af = Empty(ft), !.at = Empty(tt)]
Convert(st, ft, tt) == Extract([Inject(Load(st, ft, tt), ft, tt) EXCEPT !.doc.method = "id"], ft, tt)

\* ---- display settings
DefElem(tag) == [tag |-> tag, ignore |-> "False", skip |-> "False", newline |-> "False", blankline |-> "False", uniq |-> "None"]
RECURSIVE Distinct(_, _)
Distinct(t, k) == IF k > Len(t) THEN <<>>
                  ELSE (IF E!Nth(t, k) = 1 THEN <<[DefElem(t[k].tag) EXCEPT !.uniq = IF Len(E!Tagged(t, t[k].tag)) = 1 THEN "True" ELSE "False"]>> ELSE <<>>)
                       \o Distinct(t, k + 1)
InitElems(st, side, t) == [st EXCEPT !.doc.elems[side] = @ \o Distinct(t, 1), !.doc.root[side] = t[1].tag]
First(es, tag) == CHOOSE k \in 1..Len(es) : es[k].tag = tag /\ \A j \in 1..(k-1) : es[j].tag # tag
SetElem(st, side, tag, a, v) == [st EXCEPT !.doc.elems[side][First(st.doc.elems[side], tag)][a] = v]

SideIx(side) == IF side = "from" THEN 1 ELSE 2
DropAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
IndexIn(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x /\ \A j \in 1..(k-1) : q[j] # x

Apply(st, ev, ft, tt) ==
    CASE ev.op = "new"     -> [st EXCEPT !.doc = NewDoc]
      [] ev.op = "link"    -> [st EXCEPT !.doc.links = Append(@, Link(ft, tt, ev.i, ev.j, IF ev.how = "id" THEN "id" ELSE "n"))]
      [] ev.op = "method"  -> [st EXCEPT !.doc.method = ev.m]
      [] ev.op = "clear"   -> [st EXCEPT !.doc.links = <<>>]
      [] ev.op = "fn"      -> [st EXCEPT !.doc.fn[SideIx(ev.side)] = ev.name]
      [] ev.op = "load"    -> Load(st, ft, tt)
      [] ev.op = "inject"  -> Inject(st, ft, tt)
      [] ev.op = "extract" -> Extract(st, ft, tt)
      [] ev.op = "align"   -> [st EXCEPT !.af[ev.i] = Append(@, ev.j), !.at[ev.j] = Append(@, ev.i)]
      [] ev.op = "free"    -> [st EXCEPT !.af[ev.i] = DropAt(@, IndexIn(@, ev.j)), !.at[ev.j] = DropAt(@, IndexIn(@, ev.i))]
      [] ev.op = "elems"   -> InitElems(st, ev.side, IF ev.side = "from" THEN ft ELSE tt)
      [] ev.op = "addelem" -> [st EXCEPT !.doc.elems[ev.side] = Append(@, DefElem(ev.tag))]
      [] ev.op = "setelem" -> SetElem(st, ev.side, ev.tag, ev.a, ev.v)
      [] ev.op = "root"    -> [st EXCEPT !.doc.root[ev.side] = ev.tag]
      [] ev.op = "write"   -> [st EXCEPT !.disk = (ev.file :> st.doc) @@ @]
      [] ev.op = "read"    -> [st EXCEPT !.doc = st.disk[ev.file]]
      [] ev.op = "chdir"   -> IF ev.dry THEN st ELSE
                              [st EXCEPT !.disk = [f \in DOMAIN @ |-> IF f \in {ev.files[k] : k \in 1..Len(ev.files)}
                                                       THEN [@[f] EXCEPT !.fn = ev.moved[f]] ELSE @[f]]]
      [] ev.op = "toid"    -> [st EXCEPT !.disk = [f \in DOMAIN @ |-> IF f \in {ev.files[k] : k \in 1..Len(ev.files)}
                                                       THEN Convert([st EXCEPT !.doc = st.disk[f]], ft, tt).doc ELSE @[f]]]
      [] ev.op = "find"    -> st

\* ---- finding a text: as given, relative to the document, in the directory of the document
Found(given, here) == IF here[1] THEN "given" ELSE IF here[2] THEN "relative" ELSE IF here[3] THEN "beside" ELSE "given"

\* ---- model
T1 == <<[tag |-> "d", depth |-> 0, id |-> "d1", text |-> "", tail |-> ""], [tag |-> "p", depth |-> 1, id |-> "x", text |-> "a", tail |-> ""],
        [tag |-> "p", depth |-> 1, id |-> "y", text |-> "b", tail |-> ""]>>
T2 == <<[tag |-> "d", depth |-> 0, id |-> "d2", text |-> "", tail |-> ""], [tag |-> "p", depth |-> 1, id |-> "y", text |-> "c", tail |-> ""]>>
Do(ev) == /\ Len(hist) < MaxLen
          /\ s' = Apply(s, ev, FTree, TTree)
          /\ hist' = Append(hist, ev)
Homog(d) == \* links of one kind only, as the method says
    d.links = <<>> \/ \A k \in 1..Len(d.links) : Deref(FTree, d.links[k][1], d.links[k][2], d.method) # 0
                                                 /\ Deref(TTree, d.links[k][3], d.links[k][4], d.method) # 0
Init == s = Start0(FTree, TTree) /\ hist = <<>>
Next == \/ \E i \in 1..Len(FTree), j \in 1..Len(TTree) :
              \/ i > 1 /\ j > 1 /\ Len(s.doc.links) < 2 /\ Do([op |-> "link", how |-> IF s.doc.method = "id" THEN "id" ELSE "n", i |-> i, j |-> j])
              \/ s.on /\ i > 1 /\ j > 1 /\ Len(Flat(s.af, 1)) < 2 /\ Do([op |-> "align", i |-> i, j |-> j])
              \/ s.on /\ (\E k \in 1..Len(s.af[i]) : s.af[i][k] = j) /\ Do([op |-> "free", i |-> i, j |-> j])
        \/ \E m \in {"n", "id"} : s.doc.links = <<>> /\ s.doc.method # m /\ Do([op |-> "method", m |-> m])
        \/ s.doc.links # <<>> /\ Do([op |-> "clear"])
        \/ Do([op |-> "load"])
        \/ s.on /\ Homog(s.doc) /\ Len(Flat(s.af, 1)) = 0 /\ Do([op |-> "inject"])
        \/ s.on /\ Do([op |-> "extract"])
        \/ \E f \in Files : Do([op |-> "write", file |-> f]) \/ (f \in DOMAIN s.disk /\ Do([op |-> "read", file |-> f]))
        \/ \E f \in Files : f \in DOMAIN s.disk /\ Homog(s.disk[f]) /\ Do([op |-> "toid", files |-> <<f>>])
Spec == Init /\ [][Next]_pvars
View == s
Emit == PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
PairSet(d) == LET p == Pairs(d, FTree, TTree) IN {p[k] : k \in 1..Len(p)}
Homogeneous == Homog(s.doc)
\* converting to ids and back to positions keeps the alignments
ConvertKeeps == /\ PairSet(Convert(s, FTree, TTree).doc) = PairSet(s.doc)
                /\ Len(Convert(s, FTree, TTree).doc.links) = Len(s.doc.links)
\* injecting into fresh texts and extracting gives the same links, in document order
InjectExtract == LET r == Extract(Inject(Load(s, FTree, TTree), FTree, TTree), FTree, TTree) IN
                 /\ PairSet(r.doc) = PairSet(s.doc)
                 /\ Extract(Inject(Load(r, FTree, TTree), FTree, TTree), FTree, TTree).doc = r.doc
Mirrored == \A i \in 1..Len(FTree), j \in 1..Len(TTree) :
                Cardinality({k \in 1..Len(s.af[i]) : s.af[i][k] = j}) = Cardinality({k \in 1..Len(s.at[j]) : s.at[j][k] = i})
WriteRead == [][hist'[Len(hist')].op = "read" => s'.doc = s.disk[hist'[Len(hist')].file]]_pvars
=============================================================================
