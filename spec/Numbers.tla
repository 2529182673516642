------------------------------- MODULE Numbers -------------------------------
(* Dutch number words (daeso.string.number).  A number is the sequence of its
   groups of three digits, most significant first.  A spelling is a sequence of
   words and of single spaces; the text is their concatenation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Groups, MaxGroups
VARIABLES num, pref, hist
nvars == <<num, pref, hist>>

Small == <<"een", "twee", "drie", "vier", "vijf", "zes", "zeven", "acht", "negen", "tien", "elf", "twaalf", "dertien",
           "veertien", "vijftien", "zestien", "zeventien", "achttien", "negentien">>
Tens == <<"tien", "twintig", "dertig", "veertig", "vijftig", "zestig", "zeventig", "tachtig", "negentig">>
Scale == <<"duizend", "miljoen", "miljard", "biljoen", "biljard", "triljoen", "triljard">>
Below100(n) == IF n = 0 THEN <<>> ELSE IF n < 20 THEN <<Small[n]>>
               ELSE IF n % 10 = 0 THEN <<Tens[n \div 10]>> ELSE <<Small[n % 10], "en", Tens[n \div 10]>>
Below1000(n) == LET h == n \div 100 IN
    (IF h = 0 THEN <<>> ELSE IF h = 1 THEN <<"honderd">> ELSE <<Small[h], "honderd">>) \o Below100(n % 100)
\* group number k from the right (0: units)
Group(g, k) == IF g = 0 THEN <<>>
               ELSE IF k = 0 THEN Below1000(g)
               ELSE IF k = 1 THEN (IF g = 1 THEN <<>> ELSE Below1000(g)) \o <<Scale[1]>>
               ELSE Below1000(g) \o <<" ", Scale[k]>>
RECURSIVE Strip(_)
Strip(q) == IF q # <<>> /\ q[1] = 0 THEN Strip(Tail(q)) ELSE q
RECURSIVE Parts(_)
Parts(q) == IF q = <<>> THEN <<>> ELSE
            LET w == Group(q[1], Len(q) - 1) IN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Parts(Tail(q))
RECURSIVE Spaced(_)
Spaced(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<" ">> \o Spaced(Tail(p))
\* four digits, the second not zero: counted in hundreds
Hundreds(q) == Len(q) = 2 /\ q[1] < 10 /\ q[2] >= 100
Spelling(n, ph) == LET q == Strip(n) IN
    IF q = <<>> THEN <<"nul">>
    ELSE IF ph /\ Hundreds(q) THEN Below100(q[1] * 10 + (q[2] \div 100)) \o <<"honderd">> \o Below100(q[2] % 100)
    ELSE Spaced(Parts(q))
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
Text(n, ph) == Cat(Spelling(n, ph))

\* ---- reading words back
IndexIn(q, w) == IF \E i \in 1..Len(q) : q[i] = w THEN CHOOSE i \in 1..Len(q) : q[i] = w ELSE 0
\* value below 10000 of words without scale or spaces
RECURSIVE Value(_, _)
Value(ws, acc) ==
    IF ws = <<>> THEN acc
    ELSE LET w == ws[1]  s == IndexIn(Small, w)  t == IndexIn(Tens, w) IN
         CASE w = "honderd" -> (IF acc = 0 THEN 1 ELSE acc) * 100 + Value(Tail(ws), 0)
           [] w = "en" -> Value(Tail(ws), acc)
           [] s > 0 -> Value(Tail(ws), acc + s)
           [] t > 0 -> Value(Tail(ws), acc + 10 * t)
\* groups of three digits: add the value of ws (up to its scale word) at the place of that scale
RECURSIVE Read(_, _, _)
Read(ws, cur, groups) ==     \* groups: units first
    IF ws = <<>> THEN [groups EXCEPT ![1] = @ + Value(cur, 0)]
    ELSE LET k == IndexIn(Scale, ws[1]) IN
         IF ws[1] = " " THEN Read(Tail(ws), cur, groups)
         ELSE IF k > 0 THEN Read(Tail(ws), <<>>, [groups EXCEPT ![k + 1] = IF cur = <<>> THEN 1 ELSE Value(cur, 0)])
         ELSE Read(Tail(ws), Append(cur, ws[1]), groups)
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Normal(g) == IF g[1] < 1000 THEN g ELSE [g EXCEPT ![1] = @ % 1000, ![2] = @ + (g[1] \div 1000)]

\* ---- model: every number of at most MaxGroups groups
Init == num = <<>> /\ pref \in BOOLEAN /\ hist = <<>>
Next == /\ Len(num) < MaxGroups
        /\ \E g \in Groups : num' = Append(num, g)
        /\ pref' = pref
        /\ hist' = [n |-> num', pref |-> pref]
Spec == Init /\ [][Next]_nvars
View == <<num, pref>>
Emit == PrintT("PLAN " \o ToJson(hist'))
MCGroups == {0, 1, 2, 10, 11, 21, 100, 101, 110, 999}
MCFull == 0..999
MCMid == 0..320

\* ---- laws
ReadsBack == num # <<>> => LET ws == Spelling(num, pref) IN
    IF Strip(num) = <<>> THEN ws = <<"nul">>
    ELSE Normal(Read(ws, <<>>, [k \in 1..8 |-> 0])) = Reverse([k \in 1..(8 - Len(num)) |-> 0] \o num)
Tidy == num # <<>> => LET ws == Spelling(num, pref) IN
    /\ ws # <<>> /\ ws[1] # " " /\ ws[Len(ws)] # " "
    /\ \A i \in 1..(Len(ws) - 1) : ~(ws[i] = " " /\ ws[i + 1] = " ")
    /\ (\E i \in 1..Len(ws) : ws[i] = "nul") => ws = <<"nul">>
Leading == num # <<>> => Spelling(<<0>> \o num, pref) = Spelling(num, pref)
=============================================================================
