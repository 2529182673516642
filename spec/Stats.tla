------------------------------- MODULE Stats -------------------------------
(* Statistics of parallel graph corpora and their graphbanks
   (daeso.pgc.pgcstats, daeso.gb.gbstats).
   banks  : bank name -> sequence of graphs
   graph  : [id, root, failed, tokens, nodes |-> sequence of [id, tokens]]
   corpus : [name, pairs |-> sequence of [sb, sg, tb, tg, al]]
   options: set of letters as in the scripts: e(mpty nodes) f(ailed parses)
            p(unctuation) r (unaligned roots) u(naligned graphs) *)
EXTENDS Num, TLC, Json, SequencesExt

CONSTANTS Rels, MaxPairs, Als
VARIABLES pairs, hist
svars == <<pairs, hist>>

Letters == {"e", "f", "p", "r", "u"}
PunctChars == {".", ",", "!", "?", ";", ":", "(", ")", "-", "'", "/"}

Graph(banks, b, g) == LET q == banks[b] IN q[CHOOSE k \in 1..Len(q) : q[k].id = g]
NodeTok(g, n) == g.nodes[CHOOSE k \in 1..Len(g.nodes) : g.nodes[k].id = n].tokens
Empty(tok) == tok = <<>>
Punct(tok) == tok # <<>> /\ \A k \in 1..Len(tok) : tok[k] \in PunctChars
Counted(tok, o) == (Empty(tok) => "e" \in o) /\ (Punct(tok) => "p" \in o)

RootsAligned(banks, p) == \E a \in p.al : a[1] = Graph(banks, p.sb, p.sg).root /\ a[2] = Graph(banks, p.tb, p.tg).root
Failed(banks, p) == Graph(banks, p.sb, p.sg).failed \/ Graph(banks, p.tb, p.tg).failed
PairIn(banks, p, o) == (Failed(banks, p) => "f" \in o) /\ (~RootsAligned(banks, p) => "r" \in o)
PairsIn(banks, c, o) == SelectSeq(c.pairs, LAMBDA p : PairIn(banks, p, o))
Align(banks, p, o) == {a \in p.al : Counted(NodeTok(Graph(banks, p.sb, p.sg), a[1]), o)
                                    /\ Counted(NodeTok(Graph(banks, p.tb, p.tg), a[2]), o)}
Count(q, Test(_)) == Len(SelectSeq(q, Test))

\* ---- counts of one corpus
PgcCounts(banks, c, o) ==
    LET q == PairsIn(banks, c, o)
        rel(r) == SumSeq([k \in 1..Len(q) |-> Cardinality({a \in Align(banks, q[k], o) : a[3] = r})]) IN
    [CGP |-> Len(q),
     CGPFU |-> Count(q, LAMBDA p : ~Failed(banks, p) /\ RootsAligned(banks, p)),
     CGPFP |-> Count(q, LAMBDA p : Failed(banks, p)),
     CGPUR |-> Count(q, LAMBDA p : ~RootsAligned(banks, p)),
     CNP |-> SumSeq([k \in 1..Len(q) |-> Cardinality(Align(banks, q[k], o))]),
     CEQ |-> rel("equals"), CRE |-> rel("restates"), CGEN |-> rel("generalizes"),
     CSPEC |-> rel("specifies"), CINT |-> rel("intersects")]
Percent(a, b) == Frac(100 * a, b, 100)
PgcPercents(n) == [PGPFU |-> Percent(n.CGPFU, n.CGP), PGPFP |-> Percent(n.CGPFP, n.CGP), PGPUR |-> Percent(n.CGPUR, n.CGP),
                   PEQ |-> Percent(n.CEQ, n.CNP), PRE |-> Percent(n.CRE, n.CNP), PGEN |-> Percent(n.CGEN, n.CNP),
                   PSPEC |-> Percent(n.CSPEC, n.CNP), PINT |-> Percent(n.CINT, n.CNP)]

\* ---- counts of one graphbank b as used by corpus c
Times(banks, c, o, b, g) ==   \* in how many counted alignments of graphs the graph takes part
    LET q == PairsIn(banks, c, o) IN
    Count(q, LAMBDA p : p.sb = b /\ p.sg = g) + Count(q, LAMBDA p : p.tb = b /\ p.tg = g)
RootBad(banks, c, o, b, g) ==
    \E k \in 1..Len(PairsIn(banks, c, o)) : LET p == PairsIn(banks, c, o)[k] IN
        ~RootsAligned(banks, p) /\ (<<p.sb, p.sg>> = <<b, g>> \/ <<p.tb, p.tg>> = <<b, g>>)
NodeAligned(banks, c, o, b, g, n) ==
    \E k \in 1..Len(PairsIn(banks, c, o)) : LET p == PairsIn(banks, c, o)[k] IN
        \E a \in Align(banks, p, o) : (<<p.sb, p.sg>> = <<b, g>> /\ a[1] = n) \/ (<<p.tb, p.tg>> = <<b, g>> /\ a[2] = n)
GraphIn(banks, c, o, b, g) == (g.failed => "f" \in o) /\ (Times(banks, c, o, b, g.id) = 0 => "u" \in o)
GbCounts(banks, c, o, b) ==
    LET q == SelectSeq(banks[b], LAMBDA g : GraphIn(banks, c, o, b, g))
        t(g) == Times(banks, c, o, b, g.id)
        nodes(g) == SelectSeq(g.nodes, LAMBDA n : Counted(n.tokens, o)) IN
    [CG |-> Len(q),
     CGA |-> Count(q, LAMBDA g : t(g) > 0), CGU |-> Count(q, LAMBDA g : t(g) = 0),
     CGSA |-> Count(q, LAMBDA g : t(g) = 1), CGMA |-> Count(q, LAMBDA g : t(g) > 1),
     CGUR |-> Count(q, LAMBDA g : RootBad(banks, c, o, b, g.id)),
     CGFP |-> Count(q, LAMBDA g : g.failed),
     CT |-> SumSeq([k \in 1..Len(q) |-> Count(q[k].tokens, LAMBDA w : w \in PunctChars => "p" \in o)]),
     CN |-> SumSeq([k \in 1..Len(q) |-> Len(nodes(q[k]))]),
     CNA |-> SumSeq([k \in 1..Len(q) |-> Count(nodes(q[k]), LAMBDA n : NodeAligned(banks, c, o, b, q[k].id, n.id))]),
     CNU |-> SumSeq([k \in 1..Len(q) |-> Count(nodes(q[k]), LAMBDA n : ~NodeAligned(banks, c, o, b, q[k].id, n.id))])]
GbRatios(n) == [PGA |-> Percent(n.CGA, n.CG), PGFP |-> Percent(n.CGFP, n.CG), PGUR |-> Percent(n.CGUR, n.CG),
                PGSA |-> Percent(n.CGSA, n.CGA), PGMA |-> Percent(n.CGMA, n.CGA), PNA |-> Percent(n.CNA, n.CN),
                ATG |-> Frac(n.CT, n.CG, 100), ANG |-> Frac(n.CN, n.CG, 100)]
BanksOf(c) == {c.pairs[k].sb : k \in 1..Len(c.pairs)} \cup {c.pairs[k].tb : k \in 1..Len(c.pairs)}

\* ---- the model: all small corpora over a fixed pair of graphbanks
N(i, t) == [id |-> i, tokens |-> t]
G(i, f) == [id |-> i, root |-> "r", failed |-> f, tokens |-> <<"w", ".", "v">>,
            nodes |-> <<N("r", <<"w", ".">>), N("e", <<>>), N("p", <<".">>), N("x", <<"w">>)>>]
Banks0 == [a |-> <<G("g1", FALSE), G("g2", TRUE)>>, b |-> <<G("g1", FALSE), G("g3", FALSE)>>]
AlsL == {{}, {<<"r", "r">>}, {<<"x", "x">>}, {<<"r", "r">>, <<"e", "e">>}, {<<"r", "r">>, <<"p", "x">>, <<"x", "p">>}, {<<"e", "x">>, <<"x", "r">>}}
AlsS == {{<<"r", "r">>}, {<<"x", "x">>, <<"e", "p">>}, {<<"r", "r">>, <<"p", "x">>, <<"e", "e">>}}
Pair(sb, sg, tb, tg, al) == [sb |-> sb, sg |-> sg, tb |-> tb, tg |-> tg, al |-> al]
Init == pairs = <<>> /\ hist = <<>>
Add(p) == /\ Len(pairs) < MaxPairs
          /\ pairs' = Append(pairs, p)
          /\ hist' = <<[op |-> "stats", banks |-> Banks0, corpora |-> <<[name |-> "c.pgc", pairs |-> pairs']>>]>>
Next == \E sg \in {"g1", "g2"}, tg \in {<<"b", "g1">>, <<"b", "g3">>, <<"a", "g1">>}, al \in Als, r \in Rels :
            Add(Pair("a", sg, tg[1], tg[2], {<<x[1], x[2], r>> : x \in al}))
Spec == Init /\ [][Next]_svars
View == pairs
Emit == PrintT("PLAN " \o ToJson(hist'))

C0 == [name |-> "c", pairs |-> pairs]
Opts == SUBSET Letters
PartsAddUp == \A o \in Opts :
    LET n == PgcCounts(Banks0, C0, o) IN
    /\ n.CEQ + n.CRE + n.CGEN + n.CSPEC + n.CINT = n.CNP
    /\ Max2(n.CGPFP, n.CGPUR) <= n.CGP /\ n.CGPFU + n.CGPFP + n.CGPUR >= n.CGP
    /\ n.CGPFU <= n.CGP
    /\ \A b \in {"a", "b"} : LET m == GbCounts(Banks0, C0, o, b) IN
          /\ m.CGA + m.CGU = m.CG /\ m.CGSA + m.CGMA = m.CGA /\ m.CNA + m.CNU = m.CN
          /\ m.CGFP <= m.CG /\ m.CGUR <= m.CGA
\* including more never counts less, and without options nothing odd is counted
Monotone == \A o \in Opts, x \in Letters :
    LET n == PgcCounts(Banks0, C0, o)
        m == PgcCounts(Banks0, C0, o \cup {x}) IN
    /\ \A k \in DOMAIN n : n[k] <= m[k]
    /\ \A b \in {"a", "b"} : GbCounts(Banks0, C0, o, b).CG <= GbCounts(Banks0, C0, o \cup {x}, b).CG
Excluded == \A o \in Opts :
    LET n == PgcCounts(Banks0, C0, o) IN
    /\ ("f" \notin o => n.CGPFP = 0) /\ ("r" \notin o => n.CGPUR = 0)
    /\ \A b \in {"a", "b"} : LET m == GbCounts(Banks0, C0, o, b) IN
          ("u" \notin o => m.CGU = 0) /\ ("f" \notin o => m.CGFP = 0) /\ ("r" \notin o => m.CGUR = 0)
=============================================================================
