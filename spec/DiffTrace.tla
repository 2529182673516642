----------------------------- MODULE DiffTrace -----------------------------
(* Judges recorded comparison reports against Diff.tla.  params: graph pairs
   with their nodes (id, label, begin, end, text, non-terminal), texts and names. *)
EXTENDS TraceBase, Num, AlignEvalObs

D == INSTANCE Diff WITH NodePairs <- {}, Rels <- {}, NonTerms <- {}, a1 <- st, a2 <- st, hist <- ti

TrStart(ev) == ev.params
Fn(al) == [p \in {<<al[k][1], al[k][2]>> : k \in 1..Len(al)} |->
              LET k == CHOOSE k \in 1..Len(al) : <<al[k][1], al[k][2]>> = p IN al[k][3]]
NTs(g) == {g.nodes[k].id : k \in {j \in 1..Len(g.nodes) : g.nodes[j].nt}}
Node(g, id) == LET k == CHOOSE k \in 1..Len(g.nodes) : g.nodes[k].id = id IN g.nodes[k]
Up(s, r) == IF r = "None" THEN "NONE" ELSE s.up[r]
Rank(g, id) == Node(g, id).rank
\* the node as reported: id, label, begin, end, text
NodeOk(x, g) == x.id \in {g.nodes[k].id : k \in 1..Len(g.nodes)} /\
                LET n == Node(g, x.id) IN x.label = n.label /\ x.begin = n.begin /\ x.end = n.end /\ x.text = n.text

PairBad(s, ev, k) ==
    LET g == s.pairs[k]
        x == ev.report.pairs[k]
        A == Fn(ev.A[k])
        B == Fn(ev.B[k])
        NT == <<NTs(g.s), NTs(g.t)>>
        opts == [words |-> ev.words, ident |-> ev.ident,
                 rels |-> IF ev.rels = <<>> THEN ToSet(s.rels) ELSE ToSet(ev.rels)]
        sec(c) == D!Section(A, B, opts, NT, c)
        want == SelectSeq(D!Sections(opts), LAMBDA c : sec(c) # {})
    IN  If(x.head = <<g.s.text, g.t.text>>, "texts of a graph pair")
        \cup If(x.comments = (IF ev.comments THEN SelectSeq(g.comments, LAMBDA c : c[2] # "") ELSE <<>>), "comments")
        \cup (IF [j \in 1..Len(x.sections) |-> x.sections[j].title] # want THEN {"sections of the report"} ELSE
            UNION {LET es == x.sections[j].entries IN
                If({<<es[i].s.id, es[i].t.id, es[i].r1, es[i].r2>> : i \in 1..Len(es)}
                     = {<<y[1], y[2], Up(s, y[3]), Up(s, y[4])>> : y \in sec(want[j])}
                   /\ Len(es) = Cardinality(sec(want[j])), "alignments in section " \o want[j])
                \cup If(\A i \in 1..Len(es) : NodeOk(es[i].s, g.s) /\ NodeOk(es[i].t, g.t), "description of nodes")
                \cup If(\A i \in 1..(Len(es) - 1) : es[i].s.id = es[i+1].s.id \/ Rank(g.s, es[i].s.id) < Rank(g.s, es[i+1].s.id), "order of alignments")
                : j \in 1..Len(x.sections)})
Numbers(r) == FlattenSeq([k \in 1..Len(r.pairs) |-> FlattenSeq([j \in 1..Len(r.pairs[k].sections) |->
                 [i \in 1..Len(r.pairs[k].sections[j].entries) |-> r.pairs[k].sections[j].entries[i].n]])])

TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE
      If(ev.kept, "compared corpora changed")
      \cup If(ev.stray = "", "part of the report written elsewhere")
      \cup If(ev.report.head = ev.names, "heading")
      \cup If(ev.report.rest = "", "unexpected text")
      \* on request the comparison is followed by the evaluation of the second corpus against the first
      \cup If(ev.evaluate <=> "scores" \in DOMAIN ev, "evaluation of the alignments")
      \cup (IF "scores" \notin DOMAIN ev THEN {} ELSE
            ReportBad([rels |-> <<"equals", "restates", "specifies", "generalizes", "intersects">>,
                       rows |-> <<[name |-> "part1", T |-> AsCorpus(ev.A), P |-> AsCorpus(ev.B)]>>], ev.scores))
      \cup (IF Len(ev.report.pairs) # Len(s.pairs) THEN {"number of graph pairs"} ELSE
            UNION {PairBad(s, ev, k) : k \in 1..Len(s.pairs)}
            \cup LET n == Numbers(ev.report) IN If(n = [i \in 1..Len(n) |-> i], "numbering")))
TrAfter(s, ev) == s
=============================================================================
