---------------------------- MODULE AlignEvalObs ----------------------------
(* What is observed of an evaluation (AlignEval) and of its written report,
   against the definitions of AlignEval.tla.  State: [rels, rows]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

M == INSTANCE AlignEval WITH NodePairs <- {}, Rels <- {}, MaxAdds <- 0, MaxPairs <- 0, rows <- <<>>, hist <- <<>>
Near(a, b, t) == M!Near(a, b, t)

Triples(q) == {<<q[k][1], q[k][2], q[k][3]>> : k \in 1..Len(q)}
AsCorpus(c) == [k \in 1..Len(c) |-> Triples(c[k])]


RowName(n, k) == IF n = "" THEN "part" \o ToString(k) ELSE n

AddTo(s, ev) == [s EXCEPT !.rows = Append(@, [name |-> RowName(ev.name, Len(s.rows) + 1),
                                              T |-> AsCorpus(ev.T), P |-> AsCorpus(ev.P)])]

If(c, n) == IF c THEN {} ELSE {n}

CountsOk(o, c) == o.true = c.true /\ o.pred = c.pred /\ o.common = c.common
MeasOk(o, c) == \A m \in M!Measures : Near(o[m], M!Measure(c, m, M!U), 1)

\* statistics of one relation table: o.rows, o.counts[c] = [sum, mean, var, sd], o.meas[m][method] = [mean, var, sd]
TableBad(o, rs) ==
    LET cs == M!RowCounts(rs, o.rel)
        n  == Len(rs)
        C(c) == [k \in 1..n |-> cs[k][c]]
        cst(c) == o.counts[c]
        V(m) == M!Values(cs, m) IN
    If(Len(o.rows) = n /\ \A k \in 1..n : CountsOk(o.rows[k].counts, cs[k]), "alignment counts")
    \cup (IF o.evaluated THEN If(Len(o.rows) = n => \A k \in 1..n : MeasOk(o.rows[k].meas, cs[k]), "precision, recall and F of a pair of corpora") ELSE {})
    \cup (IF ~o.evaluated THEN {} ELSE
          If(\A c \in M!Counts : cst(c).sum = M!SumSeq(C(c)), "summed counts")
          \cup If(\A c \in M!Counts : Near(cst(c).mean, M!Frac(M!SumSeq(C(c)), n, 100), 1), "mean counts")
          \cup If(\A c \in M!Counts : /\ Near(cst(c).var, M!CountVar(C(c)), 1)
                                      /\ Near(cst(c).sd * cst(c).sd, M!CountVar(C(c)) * 100, 2 * cst(c).sd + 200), "deviation of counts")
          \cup If(\A m \in M!Measures : Near(o.meas[m].macro.mean, M!MacroMean(cs, m), 2), "macro average")
          \cup If(\A m \in M!Measures : Near(o.meas[m].micro.mean, M!MicroMean(cs, m), 1), "micro average")
          \cup If(\A m \in M!Measures :
                    /\ Near(o.meas[m].macro.var, M!VarAround(V(m), M!MacroMean(cs, m)), 8)
                    /\ Near(o.meas[m].micro.var, M!VarAround(V(m), M!MicroMean(cs, m)), 8)
                    /\ \A d \in {"macro", "micro"} :
                         Near(o.meas[m][d].sd * o.meas[m][d].sd, o.meas[m][d].var * M!U, 2 * o.meas[m][d].sd + 2 * M!U),
                  "deviation of scores"))

OverallBad(s, o) ==
    LET sm == M!SumOver(s.rows, s.rels, 1) IN
    If(CountsOk(o.counts, sm), "overall counts")
    \cup If(\A m \in M!Measures : Near(o.meas[m].micro, M!OverallMicro(s.rows, s.rels, m), 1), "overall micro average")
    \cup If(\A m \in M!Measures : Near(o.meas[m].macro, M!OverallMacro(s.rows, s.rels, m), 2), "overall macro average")

\* ---- the written report: sequence of [h |-> heading, cols, rows |-> <<label, v1, v2, v3>>], values in 1/100
Row3(lab, a, b, c) == <<lab, a, b, c>>
RelTabs(s, r, head) ==
    LET cs == M!RowCounts(s.rows, r)
        n == Len(s.rows)
        C(c) == [k \in 1..n |-> cs[k][c]]
        V(m) == M!Values(cs, m)
        cnt(f(_), lab) == Row3(lab, f(C("true")), f(C("pred")), f(C("common")))
        ms(f(_), lab) == Row3(lab, f("prec"), f("rec"), f("f"))
        mean(q) == M!Frac(M!SumSeq(q), n, 100)
        sum(q) == 100 * M!SumSeq(q)
        mac(m) == M!MacroMean(cs, m)
        mic(m) == M!MicroMean(cs, m)
        macv(m) == M!VarAround(V(m), mac(m))
        micv(m) == M!VarAround(V(m), mic(m)) IN
    << [h |-> head, cols |-> <<"Name:", "True:", "Pred:", "Common:">>,
        rows |-> [k \in 1..n |-> Row3(s.rows[k].name, 100 * cs[k].true, 100 * cs[k].pred, 100 * cs[k].common)]
                 \o <<cnt(sum, "Sum:"), cnt(mean, "Mean:"), cnt(M!CountVar, "Var:"), cnt(M!CountVar, "Sd:")>>],
       [h |-> "", cols |-> <<"Name:", "Prec:", "Rec:", "F:">>,
        rows |-> [k \in 1..n |-> Row3(s.rows[k].name, V("prec")[k], V("rec")[k], V("f")[k])]
                 \o <<ms(mac, "Macro Mean:"), ms(macv, "Macro Var:"), ms(macv, "Macro Sd:"),
                      ms(mic, "Micro Mean:"), ms(micv, "Micro Var:"), ms(micv, "Micro Sd:")>>] >>

Report(s) ==
    LET n == Len(s.rels)
        RC(k) == M!AddUp(M!RowCounts(s.rows, s.rels[k]))
        sm == M!SumOver(s.rows, s.rels, 1)
        MM(k, m) == M!MicroMean(M!RowCounts(s.rows, s.rels[k]), m) IN
    RelTabs(s, M!AnyRel, "Alignment only (regardlless of relation)")
    \o FlattenSeq([k \in 1..n |-> RelTabs(s, s.rels[k], s.rels[k])])
    \o << [h |-> "Alignment over all relations", cols |-> <<"Relation:", "True:", "Pred:", "Common:">>,
           rows |-> [k \in 1..n |-> Row3(s.rels[k], 100 * RC(k).true, 100 * RC(k).pred, 100 * RC(k).common)]
                    \o <<Row3("Sum:", 100 * sm.true, 100 * sm.pred, 100 * sm.common)>>],
          [h |-> "", cols |-> <<"Relation:", "Prec:", "Rec:", "F:">>,
           rows |-> [k \in 1..n |-> Row3(s.rels[k], MM(k, "prec"), MM(k, "rec"), MM(k, "f"))]
                    \o <<Row3("Macro Mean:", M!OverallMacro(s.rows, s.rels, "prec"), M!OverallMacro(s.rows, s.rels, "rec"), M!OverallMacro(s.rows, s.rels, "f")),
                         Row3("Micro Mean:", M!OverallMicro(s.rows, s.rels, "prec"), M!OverallMicro(s.rows, s.rels, "rec"), M!OverallMicro(s.rows, s.rels, "f"))>>] >>

\* a figure of the report against a figure of the definitions; for a standard deviation the latter is the variance
FigOk(lab, x, y, tol) ==
    IF lab = "Sd:" THEN Near(x * x, y * 100, 2 * x + 1000)
    ELSE IF lab \in {"Macro Sd:", "Micro Sd:"} THEN Near(x * x, y * 10000, 2 * x * tol + 80000 + tol * tol)
    ELSE Near(x, y, 8 + tol)
RowOk(a, b, tol) == Len(a) = 4 /\ a[1] = b[1] /\ \A j \in 2..4 : FigOk(a[1], a[j], b[j], tol)
TabBad(a, b, tol) == If(a.cols = b.cols, "report columns") \cup If(a.h = b.h, "report headings")
                \cup If(Len(a.rows) = Len(b.rows) /\ \A k \in 1..Len(a.rows) : RowOk(a.rows[k], b.rows[k], tol), "report figures")
TabsBad(rep, exp, tol) ==
    IF Len(rep) # Len(exp) THEN {"report tables"} ELSE UNION {TabBad(rep[k], exp[k], tol) : k \in 1..Len(exp)}
ReportBad(s, rep) == TabsBad(rep, Report(s), 1)

\* the tables written one by one with scores as fractions (two decimals)
Ratio(s, keys) ==
    LET R == Report(s) IN
    FlattenSeq([k \in 1..Len(keys) |-> RelTabs(s, keys[k], IF keys[k] = M!AnyRel THEN "" ELSE keys[k])])
    \o SubSeq(R, Len(R) - 1, Len(R))
IsScore(t) == t.cols[2] = "Prec:"
RatioBad(s, keys, rep) ==
    LET exp == Ratio(s, keys) IN
    IF Len(rep) # Len(exp) THEN {"tables of fractions"}
    ELSE UNION {TabBad(rep[k], exp[k], IF IsScore(exp[k]) THEN 52 ELSE 1) : k \in 1..Len(exp)}

=============================================================================
