------------------------------- MODULE Files -------------------------------
(* Directories and file patterns (daeso.utils.opsys).

   State fs: a function from paths (sequences of names, relative to the working directory) to "d" or "f".
   Do(fs, o) is [s |-> the file system after operation o, r |-> its result].  A pattern is a sequence of
   components; a component with *, ? or [..] stands for the names it matches. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Ch(x, j) == SubSeq(x, j, j)
\* characters in their order; any other comes after these
Order == " !#$%&()*+,-./0123456789:;=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_abcdefghijklmnopqrstuvwxyz{|}~"
Place == TLCEval([c \in {Ch(Order, j) : j \in 1..Len(Order)} |-> CHOOSE j \in 1..Len(Order) : Ch(Order, j) = c])
Ord(c) == IF c \in DOMAIN Place THEN Place[c] ELSE 1000
RECURSIVE Before(_, _)
Before(x, y) == IF x = "" THEN y # "" ELSE IF y = "" THEN FALSE
                ELSE IF Ch(x, 1) = Ch(y, 1) THEN Before(SubSeq(x, 2, Len(x)), SubSeq(y, 2, Len(y)))
                ELSE Ord(Ch(x, 1)) < Ord(Ch(y, 1))

\* ---------------------------------------------------------------- patterns
\* the end of the set that begins at i, or 0
Close(p, i) == LET from == IF i < Len(p) /\ Ch(p, i + 1) = "!" THEN i + 3 ELSE i + 2
                   c == {j \in from..Len(p) : Ch(p, j) = "]"}
               IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A k \in c : j <= k
\* is c in the set written between i and j
RECURSIVE Member(_, _, _, _)
Member(p, i, j, c) ==
    IF i > j THEN FALSE
    ELSE IF i + 2 <= j /\ Ch(p, i + 1) = "-" THEN (Ord(Ch(p, i)) <= Ord(c) /\ Ord(c) <= Ord(Ch(p, i + 2))) \/ Member(p, i + 3, j, c)
    ELSE Ch(p, i) = c \/ Member(p, i + 1, j, c)
RECURSIVE Fits(_, _, _, _)
Fits(p, i, n, j) ==
    IF i > Len(p) THEN j > Len(n)
    ELSE LET c == Ch(p, i) IN
         IF c = "*" THEN Fits(p, i + 1, n, j) \/ (j <= Len(n) /\ Fits(p, i, n, j + 1))
         ELSE IF j > Len(n) THEN FALSE
         ELSE IF c = "?" THEN Fits(p, i + 1, n, j + 1)
         ELSE IF c = "[" /\ Close(p, i) > 0 THEN
              LET neg == Ch(p, i + 1) = "!" IN
              (Member(p, IF neg THEN i + 2 ELSE i + 1, Close(p, i) - 1, Ch(n, j)) # neg) /\ Fits(p, Close(p, i) + 1, n, j + 1)
         ELSE c = Ch(n, j) /\ Fits(p, i + 1, n, j + 1)
Magic(p) == \E j \in 1..Len(p) : Ch(p, j) \in {"*", "?", "["}
Hidden(x) == x # "" /\ Ch(x, 1) = "."
Matches(p, n) == IF Magic(p) THEN (Hidden(n) => Hidden(p)) /\ Fits(p, 1, n, 1) ELSE p = n

\* ---------------------------------------------------------------- operations
Exists(fs, p) == p \in DOMAIN fs
Kids(fs, d) == {p \in DOMAIN fs : Len(p) = Len(d) + 1 /\ SubSeq(p, 1, Len(d)) = d}
Found(fs, pat) == {p \in DOMAIN fs : Len(p) = Len(pat) /\ \A j \in 1..Len(pat) : Matches(pat[j], p[j])}
RECURSIVE Text(_)
Text(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Text(Tail(p))
Sorted(S) == SetToSortSeq(S, Before)
Globbed(fs, pat) == Sorted({Text(p) : p \in Found(fs, pat)})
\* several patterns: everything each of them stands for, in one order
Several(fs, pats) ==
    LET one(p) == IF Exists(fs, p) THEN {p} ELSE Found(fs, p)
        all == UNION {{<<Text(x), j>> : x \in one(pats[j])} : j \in 1..Len(pats)}
        q == SetToSortSeq(all, LAMBDA a, b : Before(a[1], b[1]) \/ (a[1] = b[1] /\ a[2] < b[2]))
    IN [j \in 1..Len(q) |-> q[j][1]]
Above(p) == {SubSeq(p, 1, j) : j \in 1..Len(p)}
R(s, r) == [s |-> s, r |-> r]
Do(fs, o) ==
    CASE o.op = "makedirs" -> IF \E q \in Above(o.p) : Exists(fs, q) /\ fs[q] = "f" THEN R(fs, <<"OSError">>)
                              ELSE R(fs @@ [q \in Above(o.p) |-> "d"], <<>>)
      [] o.op = "touch" -> R(IF Exists(fs, o.p) \/ (Len(o.p) > 1 /\ (~Exists(fs, Front(o.p)) \/ fs[Front(o.p)] = "f")) THEN fs
                             ELSE fs @@ (o.p :> "f"), <<>>)
      [] o.op = "remove" -> R([q \in {x \in DOMAIN fs : ~(Len(x) >= Len(o.p) /\ SubSeq(x, 1, Len(o.p)) = o.p)} |-> fs[q]], <<>>)
      [] o.op = "glob" -> R(fs, Globbed(fs, o.pat))
      [] o.op = "multi" -> R(fs, Several(fs, o.pats))
      [] o.op = "upath" -> R(fs, <<IF o.bad THEN "str" ELSE "unicode">>)

\* ---------------------------------------------------------------- the model
CONSTANTS Names, Patterns, Depth
VARIABLES fs, prev, hist
vars == <<fs, prev, hist>>
Paths == {<<a>> : a \in Names} \cup {<<a, b>> : a \in Names, b \in Names}
Pats == {<<a>> : a \in Patterns} \cup {<<a, b>> : a \in Patterns, b \in Patterns}
Few == {<<a>> : a \in Patterns} \cup {<<"*", "*">>}
Init == fs = <<>> /\ prev = <<>> /\ hist = <<>>
Act(o) == /\ fs' = Do(fs, o).s
          /\ prev' = fs
          /\ hist' = Append(hist, o)
Next == /\ Len(hist) < Depth
        /\ \/ \E p \in Paths : Act([op |-> "makedirs", p |-> p]) \/ Act([op |-> "touch", p |-> p])
           \/ \E a \in Names : Act([op |-> "remove", p |-> <<a>>])
Spec == Init /\ [][Next]_vars
View == <<fs, Len(hist)>>

\* ---------------------------------------------------------------- laws
\* everything lies in a directory
Tree == \A p \in DOMAIN fs : Len(p) > 1 => Exists(fs, Front(p)) /\ fs[Front(p)] = "d"
Ascending(q) == \A j \in 1..(Len(q) - 1) : ~Before(q[j + 1], q[j])
InOrder == \A p \in Pats : Ascending(Globbed(fs, p))
\* a pattern finds what each of its parts finds in what the part before it found
Stepwise == \A a \in Patterns : \A b \in Patterns :
               Found(fs, <<a, b>>) = UNION {{x \in Kids(fs, d) : Matches(b, x[2])} : d \in Found(fs, <<a>>)}
\* * finds all names but the hidden ones; a name that exists stands for itself
Star == {<<n>> : n \in {x \in Names : Exists(fs, <<x>>) /\ ~Hidden(x)}} = Found(fs, <<"*">>)
Itself == \A p \in Paths : Exists(fs, p) => Several(fs, <<p>>) = <<Text(p)>>
Together == \A p \in Few : \A q \in Few : LET both == Several(fs, <<p, q>>) IN
               Ascending(both) /\ Len(both) = Len(Several(fs, <<p>>)) + Len(Several(fs, <<q>>))
\* making directories removes nothing, makes what was asked for, and making them again changes nothing
Made == (hist # <<>> /\ hist[Len(hist)].op = "makedirs") =>
           LET p == hist[Len(hist)].p IN
           /\ \A x \in DOMAIN prev : Exists(fs, x) /\ fs[x] = prev[x]
           /\ Do(prev, hist[Len(hist)]).r = <<>> => Exists(fs, p) /\ fs[p] = "d"
           /\ Do(fs, hist[Len(hist)]).s = fs
Emit == Len(hist') = Depth => PrintT("PLAN " \o ToJson(hist'))
=============================================================================
