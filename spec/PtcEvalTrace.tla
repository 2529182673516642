---------------------------- MODULE PtcEvalTrace ----------------------------
(* Judges recorded evaluations and comparisons of text alignments against PtcEval.tla. *)
EXTENDS TraceBase

M == INSTANCE PtcEval WITH FTags <- <<>>, TTags <- <<>>, MaxPairs <- 0, rows <- st, hist <- ti
E == INSTANCE ElemTree WITH Tags <- {}, Texts <- {}, Tails <- {}, MaxNodes <- 0, tree <- st, hist <- ti

TagsOf(t) == [k \in 1..Len(t) |-> t[k].tag]
Cfg == [ignore |-> {}, newline |-> {}, blank |-> {}]
TrStart(ev) == [k \in 1..Len(ev.params.docs) |->
                  LET d == ev.params.docs[k] IN
                  [f |-> d.from, t |-> d.to, ft |-> TagsOf(d.from), tt |-> TagsOf(d.to), fx |-> E!Index(d.from, Cfg), tx |-> E!Index(d.to, Cfg)]]
If(c, n) == IF c THEN {} ELSE {n}
Set(q) == {<<q[k][1], q[k][2]>> : k \in 1..Len(q)}
ScoresBad(o, c, lab) ==
    If(<<o.true, o.pred, o.common>> = <<c.true, c.pred, c.common>>, "counts" \o lab)
    \cup LET s == M!Scores(c, 100) IN
         If(\A m \in {"ratio", "prec", "rec", "f"} : M!Near(o[m], s[m], 1), "scores" \o lab)
EvalBad(s, ev) ==
    LET cs == [k \in 1..Len(ev.rows) |-> M!Counts(Set(ev.rows[k].T), Set(ev.rows[k].P), s[k].ft, s[k].tt, ev.tag)] IN
    IF Len(ev.report.rows) # Len(cs) THEN {"rows of the report"} ELSE
    UNION {ScoresBad(ev.report.rows[k], cs[k], "") \cup If(ev.report.rows[k].label = ev.labels[k], "labels") : k \in 1..Len(cs)}
    \cup ScoresBad(ev.report.total, M!Total(cs), " over all")
\* differences: [n, which, from id, to id, from text, to text]
Desc(d, p) == <<IF d.f[p[1]].id = "" THEN "None" ELSE d.f[p[1]].id, IF d.t[p[2]].id = "" THEN "None" ELSE d.t[p[2]].id,
                E!TextOf(d.fx, p[1]), E!TextOf(d.tx, p[2])>>
Count(q, x) == Cardinality({k \in 1..Len(q) : <<q[k].fid, q[k].tid, q[k].ftext, q[k].ttext>> = x})
SideBad(d, q, want, lab) ==
    If(Len(q) = Cardinality(want) /\ \A p \in want : Count(q, Desc(d, p)) = Cardinality({r \in want : Desc(d, r) = Desc(d, p)}), lab)
DiffBad(s, ev) ==
    LET T == Set(ev.rows[1].T)  P == Set(ev.rows[1].P)  d == s[1]
        side(w) == SelectSeq(ev.diffs, LAMBDA x : x.which = w) IN
    SideBad(d, side("true"), M!TrueOnly(T, P, d.ft, d.tt, ev.tag), "alignments in the first only")
    \cup SideBad(d, side("predicted"), M!PredOnly(T, P, d.ft, d.tt, ev.tag), "alignments in the second only")
    \cup If(\A k \in 1..Len(ev.diffs) : ev.diffs[k].n = k, "numbering")
TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE IF ev.op = "eval" THEN EvalBad(s, ev) ELSE DiffBad(s, ev))
    \cup (IF ev.exc = "" THEN If(ev.kept, "documents changed") \cup If(ev.rest = "", "unexpected text") ELSE {})
TrAfter(s, ev) == s
=============================================================================
