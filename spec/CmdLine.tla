------------------------------ MODULE CmdLine ------------------------------
(* Command lines (daeso.utils.cli, daeso.thirdparty.argparse).

   A parser p is [args, groups].  args is a sequence of arguments
     [names, dest, kind, nargs, type, choices, req, def, const]
   names      the option's names; empty for a positional argument
   kind       "store", "const", "append", "append_const", "count", "help", "version"
   nargs      "1" (a single value), "?", "*", "+", "2", "3"; "0" for kinds without value
   type       "str" or "int"
   def,const  values; a value is written as a string: None, True, 3, 'x', ['x',3]
   groups is a sequence of [ms, req]: arguments (by number) that exclude each other.

   Reading a command line is a state machine over its tokens: at an option, take the option with its
   values; elsewhere, hand the values up to the next option to as many positional arguments as they suffice
   for.  State: t, the next token; ns, the value of every dest; left, the positional arguments not yet read;
   seen, the arguments read; out, "" or how it ended: "ok", "error", "help", "version". *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Starts(x, y) == Len(x) >= Len(y) /\ SubSeq(x, 1, Len(y)) = y
Ch(x, j) == SubSeq(x, j, j)
Positions(x, c) == {j \in 1..Len(x) : Ch(x, j) = c}
Least(S) == CHOOSE j \in S : \A k \in S : j <= k
Rest(x, j) == SubSeq(x, j, Len(x))
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNumber(x) == LET y == IF Len(x) > 0 /\ Ch(x, 1) = "-" THEN Rest(x, 2) ELSE x IN
               Len(y) > 0 /\ \A j \in 1..Len(y) : Ch(y, j) \in Digits
\* what may follow as a value although it starts with "-"
Negative(x) == /\ Len(x) > 1 /\ Ch(x, 1) = "-"
               /\ LET y == Rest(x, 2) dots == Positions(y, ".") IN
                  /\ \A j \in 1..Len(y) : Ch(y, j) \in Digits \cup {"."}
                  /\ Cardinality(dots) <= 1 /\ Ch(y, Len(y)) # "."

\* ---------------------------------------------------------------- kinds of tokens
Optional(p, j) == p.args[j].names # <<>>
Named(p) == {<<p.args[j].names[i], j>> : <<i, j>> \in {q \in (1..4) \X (1..Len(p.args)) : q[1] <= Len(p.args[q[2]].names)}}
Is(p, x) == \E n \in Named(p) : n[1] = x
The(p, x) == (CHOOSE n \in Named(p) : n[1] = x)[2]
NumberNames(p) == \E n \in Named(p) : Negative(n[1])

A == [c |-> "A", a |-> 0, exp |-> FALSE, val |-> "", name |-> ""]
O(j, e, v, n) == [c |-> "O", a |-> j, exp |-> e, val |-> v, name |-> n]
Amb == [A EXCEPT !.c = "E"]
\* an option, written in full, shortened to a prefix no other option shares, or joined with its value
Classify(p, x) ==
    IF x = "" \/ Ch(x, 1) # "-" \/ x = "-" THEN A
    ELSE IF Is(p, x) THEN O(The(p, x), FALSE, "", x)
    ELSE LET eq == Positions(x, "=")
             long == Ch(x, 2) = "-"
             head == IF long /\ eq # {} THEN SubSeq(x, 1, Least(eq) - 1) ELSE x
             val == IF long /\ eq # {} THEN Rest(x, Least(eq) + 1) ELSE ""
             pre == {n \in Named(p) : Starts(n[1], head)}
             one == IF long THEN {} ELSE {n \in Named(p) : n[1] = SubSeq(x, 1, 2)}
             all == pre \cup one
         IN IF long /\ eq # {} /\ Is(p, head) THEN O(The(p, head), TRUE, val, head)
            ELSE IF Cardinality(all) > 1 THEN Amb
            ELSE IF all # {} THEN LET n == CHOOSE m \in all : TRUE IN
                 IF n \in one THEN O(n[2], TRUE, Rest(x, 3), n[1])
                 ELSE O(n[2], long /\ eq # {}, val, n[1])
            ELSE IF Negative(x) /\ ~NumberNames(p) THEN A
            ELSE IF Positions(x, " ") # {} THEN A
            ELSE O(0, FALSE, "", x)
\* all tokens, up to and after a "--"
Kinds(p, line) ==
    LET dd == {j \in 1..Len(line) : line[j] = "--"} IN
    [j \in 1..Len(line) |-> IF dd # {} /\ j = Least(dd) THEN [A EXCEPT !.c = "-"]
                            ELSE IF dd # {} /\ j > Least(dd) THEN A ELSE Classify(p, line[j])]

\* ---------------------------------------------------------------- values
Min_n(n) == IF n \in {"0", "?", "*"} THEN 0 ELSE IF n = "2" THEN 2 ELSE IF n = "3" THEN 3 ELSE 1
Max_n(n) == IF n \in {"*", "+"} THEN 1000 ELSE IF n = "0" THEN 0 ELSE IF n = "2" THEN 2 ELSE IF n = "3" THEN 3 ELSE 1
Fits(a, x) == a.type = "int" => IsNumber(x)
Conv(a, x) == IF a.type = "int" THEN x ELSE "'" \o x \o "'"
Allowed(a, x) == a.choices = <<>> \/ \E j \in 1..Len(a.choices) : a.choices[j] = Conv(a, x)
RECURSIVE Join(_, _)
Join(a, q) == IF q = <<>> THEN "" ELSE Conv(a, Head(q)) \o (IF Len(q) = 1 THEN "" ELSE ",") \o Join(a, Tail(q))
Good(a, q) == \A j \in 1..Len(q) : Fits(a, q[j]) /\ Allowed(a, q[j])
Value(a, q) ==
    IF a.nargs = "?" /\ q = <<>> THEN (IF a.names = <<>> THEN a.def ELSE a.const)
    ELSE IF a.nargs = "*" /\ q = <<>> /\ a.names = <<>> THEN (IF a.def = "None" THEN "[]" ELSE a.def)
    ELSE IF a.nargs \in {"1", "?"} THEN Conv(a, q[1])
    ELSE "[" \o Join(a, q) \o "]"
Added(cur, v) == IF cur \in {"None", "[]"} THEN "[" \o v \o "]" ELSE SubSeq(cur, 1, Len(cur) - 1) \o "," \o v \o "]"
Count(cur) == IF cur = "None" THEN 0 ELSE CHOOSE n \in 0..50 : ToString(n) = cur

\* ---------------------------------------------------------------- reading
Begin(p) == [t |-> 1,
             ns |-> [d \in {p.args[j].dest : j \in {i \in 1..Len(p.args) : p.args[i].kind \notin {"help", "version"}}} |->
                        p.args[CHOOSE j \in 1..Len(p.args) : p.args[j].dest = d /\ \A i \in 1..(j - 1) : p.args[i].dest # d].def],
             left |-> SelectSeq([j \in 1..Len(p.args) |-> j], LAMBDA j : ~Optional(p, j)),
             seen |-> {}, given |-> {}, out |-> ""]
Fail(s) == [s EXCEPT !.out = "error"]
\* argument j takes the values q
Take(p, s, j, q) ==
    LET a == p.args[j]
        nondef == q # <<>> \/ a.kind # "store" \/ Optional(p, j)
        g == IF nondef THEN s.given \cup {j} ELSE s.given
        s2 == [s EXCEPT !.seen = @ \cup {j}, !.given = g]
    IN IF s.out # "" THEN s
       ELSE IF ~Good(a, q) THEN Fail(s)
       ELSE IF nondef /\ \E i \in 1..Len(p.groups) : j \in p.groups[i].ms /\ \E k \in p.groups[i].ms : k # j /\ k \in s.given THEN Fail(s)
       ELSE CASE a.kind = "store" -> [s2 EXCEPT !.ns[a.dest] = Value(a, q)]
              [] a.kind = "const" -> [s2 EXCEPT !.ns[a.dest] = a.const]
              [] a.kind = "append" -> [s2 EXCEPT !.ns[a.dest] = Added(@, Value(a, q))]
              [] a.kind = "append_const" -> [s2 EXCEPT !.ns[a.dest] = Added(@, a.const)]
              [] a.kind = "count" -> [s2 EXCEPT !.ns[a.dest] = ToString(Count(@) + 1)]
              [] OTHER -> [s2 EXCEPT !.out = a.kind]

\* the number of values in a row from t on
RECURSIVE Values(_, _)
Values(k, t) == IF t > Len(k) \/ k[t].c # "A" THEN 0 ELSE 1 + Values(k, t + 1)

\* an option at t: a flag may be followed by more in the same token; the last one takes the values
RECURSIVE Chain(_, _, _, _, _, _)
Chain(p, s, line, k, j, e) ==      \* e: <<is a value attached, the value, name of the option>>
    LET a == p.args[j] IN
    IF ~e[1] THEN
        LET n == Values(k, s.t + 1)
            m == IF n > Max_n(a.nargs) THEN Max_n(a.nargs) ELSE n
        IN IF n < Min_n(a.nargs) THEN Fail(s)
           ELSE [Take(p, s, j, SubSeq(line, s.t + 1, s.t + m)) EXCEPT !.t = s.t + 1 + m]
    ELSE IF a.nargs = "0" THEN
        LET next == "-" \o Ch(e[2], 1) IN
        IF Starts(e[3], "--") \/ e[2] = "" \/ ~Is(p, next) THEN Fail(s)
        ELSE LET s2 == Take(p, s, j, <<>>)
                 more == Rest(e[2], 2)
             IN \* nothing is done before the whole token is understood
                LET dry == Chain(p, s, line, k, The(p, next), <<more # "", more, next>>) IN
                IF dry.out = "error" THEN Fail(s)
                ELSE Chain(p, s2, line, k, The(p, next), <<more # "", more, next>>)
    ELSE IF Min_n(a.nargs) > 1 THEN Fail(s)
    ELSE [Take(p, s, j, <<e[2]>>) EXCEPT !.t = s.t + 1]

RECURSIVE Mins(_, _, _), Deal(_, _, _, _, _)
Mins(p, q, j) == IF j > Len(q) THEN 0 ELSE Min_n(p.args[q[j]].nargs) + Mins(p, q, j + 1)
\* each takes as many values as it may, leaving the later ones what they need
Deal(p, s, q, j, vals) ==
    IF j > Len(q) THEN s
    ELSE LET a == p.args[q[j]]
             free == Len(vals) - Mins(p, q, j + 1)
             m == IF free > Max_n(a.nargs) THEN Max_n(a.nargs) ELSE free
         IN Deal(p, Take(p, s, q[j], SubSeq(vals, 1, m)), q, j + 1, SubSeq(vals, m + 1, Len(vals)))
RECURSIVE Used(_, _, _, _)
Used(p, q, j, n) == IF j > Len(q) THEN 0
    ELSE LET free == n - Mins(p, q, j + 1)
             m == IF free > Max_n(p.args[q[j]].nargs) THEN Max_n(p.args[q[j]].nargs) ELSE free
         IN m + Used(p, q, j + 1, n - m)
\* the longest series of positional arguments for which n values suffice
Longest(p, left, n) == LET c == {m \in 0..Len(left) : Mins(p, SubSeq(left, 1, m), 1) <= n} IN
                       SubSeq(left, 1, CHOOSE m \in c : \A x \in c : x <= m)
Block(p, s, line, from, n) ==     \* values line[from..from+n-1]
    LET q == Longest(p, s.left, n)
        u == Used(p, q, 1, n)
    IN [Deal(p, s, q, 1, SubSeq(line, from, from + n - 1)) EXCEPT !.left = SubSeq(@, Len(q) + 1, Len(@)), !.t = from + u]

Finish(p, s) ==
    IF s.out # "" THEN s
    ELSE IF s.t <= p.n \/ s.left # <<>> \/ (\E j \in 1..Len(p.args) : p.args[j].req /\ j \notin s.seen)
         \/ (\E i \in 1..Len(p.groups) : p.groups[i].req /\ p.groups[i].ms \cap s.given = {})
         THEN Fail(s) ELSE [s EXCEPT !.out = "ok"]
\* one step.  Values left over, unknown options and ambiguous ones are errors, but only after what comes
\* before them has been read (help may come first); ambiguity shows before all
StepOf(p, s, line, k) ==
    IF \E j \in 1..Len(k) : k[j].c = "E" THEN Fail(s)
    ELSE IF s.t > Len(line) THEN Finish(p, IF s.out = "" THEN Block(p, s, line, s.t, 0) ELSE s)
    ELSE IF k[s.t].c = "O" THEN (IF k[s.t].a = 0 THEN [s EXCEPT !.t = @ + 1, !.given = @ \cup {-1}]
                                 ELSE Chain(p, s, line, k, k[s.t].a, <<k[s.t].exp, k[s.t].val, k[s.t].name>>))
    ELSE IF \E j \in s.t..Len(k) : k[j].c = "O" THEN
         LET n == Values(k, s.t) s2 == Block(p, s, line, s.t, n) IN
         IF s2.t = s.t THEN [s2 EXCEPT !.t = s.t + n, !.given = @ \cup {-1}] ELSE s2
    ELSE \* the last values, with or without a "--" among them
         LET vals == SelectSeq([j \in 1..(Len(line) - s.t + 1) |-> [x |-> line[s.t + j - 1], dd |-> k[s.t + j - 1].c = "-"]], LAMBDA y : ~y.dd)
             v2 == [j \in 1..Len(vals) |-> vals[j].x]
             q == Longest(p, s.left, Len(v2))
         IN Finish(p, [Deal(p, s, q, 1, v2) EXCEPT !.left = SubSeq(@, Len(q) + 1, Len(@)),
                          !.t = IF Used(p, q, 1, Len(v2)) = Len(v2) /\ (q # <<>> \/ Len(v2) = Len(line) - s.t + 1) THEN Len(line) + 1 ELSE s.t])
Step(p, s, line, k) == LET s2 == StepOf(p, s, line, k) IN
                       IF s2.out = "ok" /\ -1 \in s2.given THEN Fail(s2) ELSE s2
RECURSIVE Run(_, _, _, _)
Run(p, s, line, k) == IF s.out # "" THEN s ELSE Run(p, Step(p, s, line, k), line, k)
Read(p, line) == LET q == [p EXCEPT !.n = Len(line)] IN
                 LET s == Run(q, Begin(q), line, Kinds(q, line)) IN
                 [out |-> s.out, ns |-> IF s.out = "ok" THEN s.ns ELSE <<>>]

\* ---------------------------------------------------------------- the model
CONSTANTS Depth
VARIABLES pn, line, s, prev
vars == <<pn, line, s, prev>>

Opt(names, dest, kind, nargs) == [names |-> names, dest |-> dest, kind |-> kind, nargs |-> nargs, type |-> "str", choices |-> <<>>,
                                  req |-> FALSE, def |-> "None", const |-> "None"]
Flag(names, dest) == [Opt(names, dest, "const", "0") EXCEPT !.const = "True", !.def = "False"]
Pos(dest, nargs) == Opt(<<>>, dest, "store", nargs)
Help == <<Opt(<<"-h", "--help">>, "help", "help", "0"), Opt(<<"-v", "--version">>, "version", "version", "0")>>
P(args, groups) == [args |-> Help \o args, groups |-> groups, n |-> 0]
\* parsers like those of the scripts, and some that try the rules on each other
Parsers == <<
    P(<<Pos("corpus", "+"), Opt(<<"-r", "--relations">>, "relations", "store", "+"), Flag(<<"-e", "--evaluate">>, "evaluate"), Flag(<<"-i", "--with_ident">>, "ident")>>, <<>>),
    P(<<Pos("in", "1"), Pos("out", "?"), [Opt(<<"-s", "--size">>, "size", "store", "1") EXCEPT !.type = "int", !.def = "7"], Flag(<<"--sizes">>, "sizes")>>, <<>>),
    P(<<Pos("files", "*"), Opt(<<"-p", "--pair">>, "pair", "append", "2"), Flag(<<"-t">>, "test"), Opt(<<"-c">>, "level", "count", "0")>>, <<>>),
    P(<<Opt(<<"--tag">>, "tag", "store", "?"), [Opt(<<"-f", "--format">>, "format", "store", "1") EXCEPT !.choices = <<"'a'", "'b'">>, !.req = TRUE],
        Flag(<<"-x">>, "x"), Flag(<<"-y">>, "y")>>, <<[ms |-> {5, 6}, req |-> FALSE]>>),
    P(<<Pos("a", "1"), Pos("b", "2"), Opt(<<"-k">>, "k", "append_const", "0"), Opt(<<"-n", "--num">>, "num", "store", "*")>>, <<>>) >>
Alphabet == <<
    {"x", "y", "-r", "--rel", "--relations=z", "-e", "-ei", "-ri", "--with_ident", "-h", "--", "-1"},
    {"x", "y", "3", "-5", "-s", "-s4", "--size", "--size=5", "--sizes", "--siz", "-v", "--unknown"},
    {"x", "y", "-p", "--pair", "--pair=x", "-t", "-cc", "-ct", "-tpx", "-c", "-", "-z"},
    {"x", "a", "b", "--tag", "--tag=c", "-f", "-fa", "--form=b", "-x", "-y", "-xy", "--"},
    {"x", "y", "z", "-k", "-n", "--num=3", "-kn", "-kk", "--nu", "--", "two words", "-two words"} >>

Init == /\ pn \in 1..Len(Parsers)
        /\ line = <<>>
        /\ s = [t |-> 0, ns |-> <<>>, left |-> <<>>, seen |-> {}, given |-> {}, out |-> "?"]
        /\ prev = <<>>
\* choose the tokens, then read them step by step
\* (what a second "--" means is left open)
Choose == /\ s.out = "?" /\ Len(line) < Depth
          /\ \E x \in Alphabet[pn] : (x = "--" => \A j \in 1..Len(line) : line[j] # "--") /\ line' = Append(line, x)
          /\ UNCHANGED <<pn, s, prev>>
Go == /\ s.out = "?"
      /\ s' = Begin(Parsers[pn])
      /\ prev' = <<>>
      /\ UNCHANGED <<pn, line>>
Reading == /\ s.out = ""
           /\ LET p == [Parsers[pn] EXCEPT !.n = Len(line)] IN s' = Step(p, s, line, Kinds(p, line))
           /\ prev' = <<s>>
           /\ UNCHANGED <<pn, line>>
Next == Choose \/ Go \/ Reading
Spec == Init /\ [][Next]_vars
View == vars

\* ---------------------------------------------------------------- laws
Pp == Parsers[pn]
Kd == Kinds(Pp, line)
Done == s.out \notin {"", "?"}
\* reading goes forward and ends, and what it says is what Read says
Forward == prev # <<>> => s.out # "" \/ s.t > prev[1].t
Agrees == Done => Read(Pp, line) = [out |-> s.out, ns |-> IF s.out = "ok" THEN s.ns ELSE <<>>]
\* a successful reading has read every positional argument and every required option, and no option that is absent
AllRead == s.out = "ok" => /\ \A j \in 1..Len(Pp.args) : (~Optional(Pp, j) \/ Pp.args[j].req) => j \in s.seen
                           /\ \A j \in 3..Len(Pp.args) : j \notin s.seen => s.ns[Pp.args[j].dest] = Pp.args[j].def \/ \E i \in s.seen : Pp.args[i].dest = Pp.args[j].dest
NoHelp == s.out = "ok" => 1 \notin s.seen /\ 2 \notin s.seen
Exclusive == s.out = "ok" => \A i \in 1..Len(Pp.groups) : Cardinality(Pp.groups[i].ms \cap s.given) <= 1
\* an option's value may be joined to it
Sub(j, q) == SubSeq(line, 1, j - 1) \o q \o SubSeq(line, j + 1, Len(line))
Sub2(j, q) == SubSeq(line, 1, j - 1) \o q \o SubSeq(line, j + 2, Len(line))
Single(j) == Kd[j].c = "O" /\ Kd[j].a > 0 /\ ~Kd[j].exp /\ Pp.args[Kd[j].a].nargs = "1"
Joined == s.out = "ok" => \A j \in 1..(Len(line) - 1) : (Single(j) /\ Kd[j + 1].c = "A") =>
              /\ Starts(line[j], "--") => Read(Pp, Sub2(j, <<line[j] \o "=" \o line[j + 1]>>)) = Read(Pp, line)
              /\ (~Starts(line[j], "--") /\ line[j + 1] # "" /\ Len(line[j]) = 2) => Read(Pp, Sub2(j, <<line[j] \o line[j + 1]>>)) = Read(Pp, line)
\* a name may be shortened as long as it is the only one, and stands for the full name
Short == Done => \A j \in 1..Len(line) : (Kd[j].c = "O" /\ Kd[j].a > 0 /\ ~Kd[j].exp) =>
              Read(Pp, Sub(j, <<Kd[j].name>>)) = Read(Pp, line)
\* flags may be given one by one
Apart == Done => \A j \in 1..Len(line) :
              (Kd[j].c = "O" /\ Kd[j].a > 0 /\ Kd[j].exp /\ ~Starts(line[j], "--") /\ Pp.args[Kd[j].a].nargs = "0" /\ s.out = "ok") =>
              Read(Pp, Sub(j, <<Kd[j].name, "-" \o Kd[j].val>>)) = Read(Pp, line)
\* an option with a fixed number of values may come first (if it comes once)
Fixed(j) == Kd[j].c = "O" /\ Kd[j].a > 0 /\ (Kd[j].exp \/ Pp.args[Kd[j].a].nargs \in {"0", "1", "2"})
Width(j) == IF Kd[j].exp \/ Pp.args[Kd[j].a].nargs = "0" THEN 1 ELSE IF Pp.args[Kd[j].a].nargs = "1" THEN 2 ELSE 3
First == s.out = "ok" => \A j \in 1..Len(line) :
              (Fixed(j) /\ \A i \in 1..Len(line) : i # j => Kd[i].c # "O" \/ ~Fixed(i)) =>
              LET w == Width(j)
                  flag == Kd[j].exp /\ Pp.args[Kd[j].a].nargs = "0"
              IN flag \/ Read(Pp, SubSeq(line, j, j + w - 1) \o SubSeq(line, 1, j - 1) \o SubSeq(line, j + w, Len(line))) = Read(Pp, line)
                 \* unless it separated the values of another option from those that follow
                 \/ \E i \in 1..(j - 1) : Kd[i].c = "O" /\ Pp.args[Kd[i].a].nargs \in {"?", "*", "+"}
Emit == (s.out = "?" /\ s'.out = "") => PrintT("PLAN " \o ToJson([pn |-> pn, p |-> Parsers[pn], line |-> line]))
=============================================================================
