----------------------------- MODULE StatsTrace -----------------------------
(* Judges recorded statistics tables against Stats.tla. *)
EXTENDS TraceBase

M == INSTANCE Stats WITH Rels <- {}, Als <- {}, MaxPairs <- 0, pairs <- <<>>, hist <- <<>>

TrStart(ev) == 0
If(c, n) == IF c THEN {} ELSE {n}
Triples(q) == {<<q[k][1], q[k][2], q[k][3]>> : k \in 1..Len(q)}
Corpora(ev) == [k \in 1..Len(ev.corpora) |->
                  [name |-> ev.corpora[k].name,
                   pairs |-> [p \in 1..Len(ev.corpora[k].pairs) |-> [ev.corpora[k].pairs[p] EXCEPT !.al = Triples(@)]]]]
Opt(ev) == ToSet(ev.opts)

PCols == <<"CGP", "CGPFU", "CGPFP", "CGPUR", "CNP", "CEQ", "CRE", "CGEN", "CSPEC", "CINT">>
BCols == <<"CG", "CGA", "CGU", "CGSA", "CGMA", "CGUR", "CGFP", "CT", "CN", "CNA", "CNU">>

\* a table: sequence of rows [name, v |-> column -> value], overall: column -> value (-1: none)
RowBad(row, cnt, rat, tol, lab) ==
    UNION {If(row.v[k] = cnt[k], lab \o " " \o k) : k \in DOMAIN cnt}
    \cup UNION {If(M!Near(row.v[k], rat[k], tol), lab \o " " \o k) : k \in DOMAIN rat}
Total(cs, k) == M!SumSeq([j \in 1..Len(cs) |-> cs[j][k]])
\* den(k): the column whose total must be non-zero for the ratio k to be given
OverBad(ov, tot, rat, den(_), tol, lab) ==
    UNION {If(ov[k] = tot[k], lab \o " total " \o k) : k \in DOMAIN tot}
    \cup UNION {If(IF tot[den(k)] = 0 THEN ov[k] = -1 ELSE M!Near(ov[k], rat[k], tol), lab \o " overall " \o k) : k \in DOMAIN rat}
PDen(k) == IF k \in {"PGPFU", "PGPFP", "PGPUR"} THEN "CGP" ELSE "CNP"
BDen(k) == CASE k \in {"PGSA", "PGMA"} -> "CGA" [] k = "PNA" -> "CN" [] OTHER -> "CG"

PgcBad(ev, cs, t) ==
    LET n == Len(cs)
        cnt == [k \in 1..n |-> M!PgcCounts(ev.banks, cs[k], Opt(ev))]
        tot == [c \in ToSet(PCols) |-> Total(cnt, c)] IN
    IF Len(t.rows) # n THEN {"corpora listed"} ELSE
    If(\A k \in 1..n : t.rows[k].name = cs[k].name, "corpora listed")
    \cup UNION {RowBad(t.rows[k], cnt[k], M!PgcPercents(cnt[k]), 1, "corpus") : k \in 1..n}
    \cup OverBad(t.overall, tot, M!PgcPercents(tot), PDen, 1, "corpora")

\* rows of the graphbank table: corpus by corpus, the banks of a corpus in any order
RECURSIVE Before(_, _)
Before(cs, k) == IF k = 1 THEN 0 ELSE Before(cs, k - 1) + Cardinality(M!BanksOf(cs[k - 1]))
GbBad(ev, cs, t) ==
    LET n == Len(cs)
        rows(k) == SubSeq(t.rows, Before(cs, k) + 1, Before(cs, k) + Cardinality(M!BanksOf(cs[k])))
        bank(r) == CHOOSE b \in DOMAIN ev.banks : b \o ".graphml" = r.name
        all == FlattenSeq([k \in 1..n |-> [j \in 1..Len(rows(k)) |-> M!GbCounts(ev.banks, cs[k], Opt(ev), bank(rows(k)[j]))]])
        tot == [c \in ToSet(BCols) |-> Total(all, c)] IN
    IF Len(t.rows) # Before(cs, n + 1) THEN {"graphbanks listed"}
    ELSE IF \E k \in 1..n : {rows(k)[j].name : j \in 1..Len(rows(k))} # {b \o ".graphml" : b \in M!BanksOf(cs[k])}
    THEN {"graphbanks listed"} ELSE
    UNION {UNION {LET c == M!GbCounts(ev.banks, cs[k], Opt(ev), bank(rows(k)[j])) IN
                  RowBad(rows(k)[j], c, M!GbRatios(c), 1, "graphbank") : j \in 1..Len(rows(k))} : k \in 1..n}
    \cup OverBad(t.overall, tot, M!GbRatios(tot), BDen, 1, "graphbanks")

\* graphbanks by themselves: no corpora, unaligned graphs and roots included
GbOnlyBad(ev, t) ==
    LET c == [name |-> "", pairs |-> <<>>]
        o == Opt(ev) \cup {"r", "u"}
        n == Len(ev.order)
        cnt == [k \in 1..n |-> M!GbCounts(ev.banks, c, o, ev.order[k])]
        tot == [x \in ToSet(BCols) |-> Total(cnt, x)] IN
    IF [k \in 1..Len(t.rows) |-> t.rows[k].name] # [k \in 1..n |-> ev.order[k] \o ".graphml"] THEN {"graphbanks listed"} ELSE
    UNION {RowBad(t.rows[k], cnt[k], M!GbRatios(cnt[k]), 1, "graphbank") : k \in 1..n}
    \cup OverBad(t.overall, tot, M!GbRatios(tot), BDen, 1, "graphbanks")

TrFailing(s, ev) ==
    LET cs == Corpora(ev) IN
    If(ev.exc = "", "operation failed")
    \cup (IF "pgc" \in DOMAIN ev THEN PgcBad(ev, cs, ev.pgc) ELSE {})
    \cup (IF "gb" \in DOMAIN ev THEN GbBad(ev, cs, ev.gb) ELSE {})
    \cup (IF "gbonly" \in DOMAIN ev THEN GbOnlyBad(ev, ev.gbonly) ELSE {})
TrAfter(s, ev) == s
=============================================================================
