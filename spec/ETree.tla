------------------------------- MODULE ETree -------------------------------
(* Element trees as the framework compares, indents and writes them
   (daeso.utils.etree).  A tree is [tag, text, tail, attr, kids]: attr is a
   sequence of <<name, value>> in order of the names, kids a sequence of
   trees.  Absent texts and tails are "".
   heap: object -> tree *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Objs, Tags, Texts, Attrs, MaxNodes, MaxLen
VARIABLES heap, hist
evars == <<heap, hist>>

White == {" ", "\n", "\t"}
RECURSIVE LStrip(_)
LStrip(x) == IF x # "" /\ SubSeq(x, 1, 1) \in White THEN LStrip(SubSeq(x, 2, Len(x))) ELSE x
RECURSIVE RStrip(_)
RStrip(x) == IF x # "" /\ SubSeq(x, Len(x), Len(x)) \in White THEN RStrip(SubSeq(x, 1, Len(x) - 1)) ELSE x
Strip(x) == RStrip(LStrip(x))
Blank(x) == Strip(x) = ""

El(tag) == [tag |-> tag, text |-> "", tail |-> "", attr |-> <<>>, kids |-> <<>>]

\* equal but for white space around texts and tails
RECURSIVE Same(_, _)
Same(x, y) == /\ x.tag = y.tag
              /\ Strip(x.text) = Strip(y.text)
              /\ Strip(x.tail) = Strip(y.tail)
              /\ x.attr = y.attr
              /\ Len(x.kids) = Len(y.kids)
              /\ \A k \in 1..Len(x.kids) : Same(x.kids[k], y.kids[k])

\* every child on a line of its own, two blanks further than its parent; other text is left alone
RECURSIVE Blanks(_)
Blanks(n) == IF n = 0 THEN "" ELSE "  " \o Blanks(n - 1)
Line(n) == "\n" \o Blanks(n)
RECURSIVE Indent(_, _)
Indent(x, lv) ==
    LET n == Len(x.kids)
        kid(k) == [Indent(x.kids[k], lv + 1) EXCEPT !.tail = IF ~Blank(@) THEN @ ELSE Line(IF k = n THEN lv ELSE lv + 1)] IN
    IF n = 0 THEN x
    ELSE [x EXCEPT !.text = IF Blank(@) THEN Line(lv + 1) ELSE @,
                   !.kids = [k \in 1..n |-> kid(k)]]
\* what a file with the tree holds
Stored(x) == [x EXCEPT !.tail = ""]

RECURSIVE Size(_)
RECURSIVE SizeAll(_)
SizeAll(q) == IF q = <<>> THEN 0 ELSE Size(q[1]) + SizeAll(Tail(q))
Size(x) == 1 + SizeAll(x.kids)
RECURSIVE Paths(_)
Paths(x) == {<<>>} \cup UNION {{<<k>> \o p : p \in Paths(x.kids[k])} : k \in 1..Len(x.kids)}

DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
SetAttr(q, name, v) == \* names are numbered a1, a2, ... in their order
    LET rest == SelectSeq(q, LAMBDA e : e[1] # name)
        before == SelectSeq(rest, LAMBDA e : \E i, j \in 1..9 : e[1] = "a" \o ToString(i) /\ name = "a" \o ToString(j) /\ i < j)
        after == SubSeq(rest, Len(before) + 1, Len(rest)) IN
    before \o (IF v = "" THEN <<>> ELSE <<<<name, v>>>>) \o after
\* change a tree at a path
RECURSIVE At(_, _, _)
Change(x, ev) ==
    CASE ev.op = "text" -> [x EXCEPT !.text = ev.v]
      [] ev.op = "tail" -> [x EXCEPT !.tail = ev.v]
      [] ev.op = "tag"  -> [x EXCEPT !.tag = ev.v]
      [] ev.op = "attr" -> [x EXCEPT !.attr = SetAttr(@, ev.k, ev.v)]
      [] ev.op = "add"  -> [x EXCEPT !.kids = Append(@, El(ev.v))]
      [] ev.op = "del"  -> [x EXCEPT !.kids = DropAt(@, ev.i)]
      [] ev.op = "swap" -> [x EXCEPT !.kids = [k \in 1..Len(@) |-> @[IF k = ev.i THEN ev.i + 1 ELSE IF k = ev.i + 1 THEN ev.i ELSE k]]]
At(x, p, ev) == IF p = <<>> THEN Change(x, ev) ELSE [x EXCEPT !.kids[p[1]] = At(@, Tail(p), ev)]

Edits == {"text", "tail", "tag", "attr", "add", "del", "swap"}
Apply(h, ev) ==
    CASE ev.op = "indent" -> [h EXCEPT ![ev.o] = Indent(@, 0)]
      \* write x to a file (pretty printed: indented before) and read the file as o
      [] ev.op = "file" -> LET x == IF ev.pretty THEN Indent(h[ev.x], 0) ELSE h[ev.x] IN
                           (ev.o :> Stored(x)) @@ (ev.x :> x) @@ h
      [] OTHER -> [h EXCEPT ![ev.o] = At(@, ev.p, ev)]

Node(x, p) == LET RECURSIVE N(_, _)
                  N(y, q) == IF q = <<>> THEN y ELSE N(y.kids[q[1]], Tail(q)) IN N(x, p)
Ops(h) ==
    UNION {UNION {
        LET n == Node(h[o], p) IN
        {[op |-> "text", o |-> o, p |-> p, v |-> v] : v \in Texts}
        \cup {[op |-> "tail", o |-> o, p |-> p, v |-> v] : v \in IF p = <<>> THEN {} ELSE Texts}
        \cup {[op |-> "attr", o |-> o, p |-> p, k |-> k, v |-> v] : k \in Attrs, v \in {"", "u", "w"}}
        \cup {[op |-> "add", o |-> o, p |-> p, v |-> v] : v \in IF Size(h[o]) < MaxNodes THEN Tags ELSE {}}
        \cup {[op |-> "del", o |-> o, p |-> p, i |-> i] : i \in 1..Len(n.kids)}
        \cup {[op |-> "swap", o |-> o, p |-> p, i |-> i] : i \in 1..(Len(n.kids) - 1)}
        : p \in Paths(h[o])} : o \in Objs}
    \cup {[op |-> "indent", o |-> o] : o \in Objs}
    \cup {[op |-> "file", x |-> x, o |-> o, pretty |-> b] : x \in Objs, o \in Objs, b \in BOOLEAN}

Init == heap = [o \in Objs |-> El("r")] /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E ev \in Ops(heap) : heap' = Apply(heap, ev) /\ hist' = Append(hist, ev)
Spec == Init /\ [][Next]_evars
View == <<heap, Len(hist)>>
Emit == PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
Trees == {heap[o] : o \in Objs}
Equivalence == \A x, y \in Trees : Same(x, x) /\ (Same(x, y) = Same(y, x))
\* an indented tree is the same tree, and indenting it again changes nothing
Indented == \A x \in Trees : LET y == Indent(x, 0) IN Same(x, y) /\ Indent(y, 0) = y
\* comparison does not see how a tree is indented
IndentBlind == \A x, y \in Trees : Same(Indent(x, 0), Indent(y, 0)) = Same(x, y)
RECURSIVE Words(_)
RECURSIVE WordsAll(_)
WordsAll(q) == IF q = <<>> THEN <<>> ELSE Words(q[1]) \o WordsAll(Tail(q))
Words(x) == <<x.tag, x.attr, Strip(x.text)>> \o WordsAll(x.kids) \o <<Strip(x.tail)>>
SameWords == \A x, y \in Trees : Same(x, y) => Words(x) = Words(y)
Last == hist'[Len(hist')]
\* what is read from a file is the tree written
FileKeeps == [][Last.op = "file" => /\ Same([heap[Last.x] EXCEPT !.tail = ""], heap'[Last.o])
                                    /\ (~Last.pretty /\ Last.x # Last.o => heap'[Last.x] = heap[Last.x])]_evars
OthersKept == [][\A o \in Objs : o \notin {Last.o} \cup (IF Last.op = "file" THEN {Last.x} ELSE {}) => heap'[o] = heap[o]]_evars
=============================================================================
