--------------------------- MODULE TextAlignTrace ---------------------------
(* Judges recorded alignments of parallel texts against TextAlign.tla.
   Scores are in units of 1/10000. *)
EXTENDS TraceBase

M == INSTANCE TextAlign WITH FTree <- <<>>, TTree <- <<>>, Scores <- {}, MaxLinks <- 0, links <- st, score <- st, thr <- ti, hist <- ti
S == INSTANCE Sim WITH Items <- {}, MaxLen <- 0, Width <- 0, seqs <- st, hist <- ti

Cfg(ign) == [ignore |-> ign, newline |-> {}, blank |-> {}]
TrStart(ev) == LET f == ev.params.from  t == ev.params.to  ign == <<ToSet(ev.params.ignore[1]), ToSet(ev.params.ignore[2])>> IN
    [f |-> f, t |-> t, ign |-> ign, fx |-> M!E!Index(f, Cfg(ign[1])), tx |-> M!E!Index(t, Cfg(ign[2])),
     corpus |-> <<>>, trees |-> <<>>]
If(c, n) == IF c THEN {} ELSE {n}
Conf(s, ev) == [focus |-> ev.focus, scope |-> <<ToSet(ev.scope[1]), ToSet(ev.scope[2])>>, ignore |-> s.ign, clear |-> ev.clear]
Punct == {".", ",", "!", "?", ";", ":", "(", ")", "-", "'"}
Stop == ToSet(<<"de", "het", "een">>)
\* terms of a text
Terms(k, x) ==
    CASE k.kind = "text" -> <<x>>
      [] k.kind = "word" -> S!Grams(S!Words(x), k.n, " ")
      [] k.kind = "char" -> S!Grams(S!Chars(x), k.n, " ")
      [] k.kind = "preword" -> LET w == SelectSeq(S!Words(x), LAMBDA v : v \notin Punct) IN S!Grams([i \in 1..Len(w) |-> S!LowerCase(w[i])], k.n, " ")
      [] k.kind = "stopword" -> LET w == S!Words(S!LowerCase(x)) IN S!Grams(SelectSeq(w, LAMBDA v : v \notin Stop \cup Punct), k.n, " ")
      [] k.kind = "prechar" -> LET w == S!Words(S!LowerCase(x)) IN
                               S!Grams(S!Chars(S!Join(SelectSeq(w, LAMBDA v : v \notin Stop \cup Punct), " ")), k.n, " ")
Q(fr) == S!Frac(fr[1], fr[2], 10000)
ScoreOk(ev, a, b, sc) ==
    CASE ev.sim = "table" -> sc = LET i == CHOOSE i \in 1..Len(ev.table) : <<ev.table[i][1], ev.table[i][2]>> = <<a[1], b[1]>> IN ev.table[i][3] * 100
      [] ev.sim = "equals" -> sc = IF a = b THEN 10000 ELSE 0
      [] ev.sim \in {"jaccard", "dice", "tanimoto", "overlap_min", "overlap_max"} -> S!Near(sc, Q(S!Measure(ev.sim, a, b)), 1)
      [] ev.sim = "type_match" -> sc = S!TypeMatch(a, b) * 10000
      [] ev.sim = "cosine" -> S!RootOk(sc \div 50, S!Inter(a, b), Len(a) * Len(b), 200)
      [] ev.sim = "weighted" -> sc >= 0 /\ sc <= 10001 /\ (a = b /\ sc # 0 => sc >= 9999) /\ (S!Inter(a, b) = 0 => sc = 0)
\* weighted similarity: cosine of the idf-weighted indicator vectors, where every focus element
\* in the scope (on either side) is a document
W == INSTANCE TfIdf WITH Items <- {}, MaxLen <- 0, Width <- 0, seqs <- st, hist <- ti
RECURSIVE SumW(_, _)
SumW(T, w) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN w[x] * w[x] + SumW(T \ {x}, w)
WeightedOk(w, a, b, sc) ==
    LET la == SumW(ToSet(a), w)  lb == SumW(ToSet(b), w)  dot == SumW(ToSet(a) \cap ToSet(b), w)
        r1 == (dot * 1000) \div la  r2 == (dot * 1000) \div lb IN
    IF la = 0 \/ lb = 0 THEN sc = 0 ELSE S!Near(sc * sc, 100 * r1 * r2, 300 * (r1 + r2 + 1) + (100 * r1 * r2) \div 10)
Pair2(x) == <<x[1], x[2]>>
CallBad(s, ev, p, c, conf) ==
    LET cands == M!Cands(p, s.f, s.t, conf)
        C == ToSet(cands)
        TS(k) == Terms(ev.terms, M!E!TextOf(s.fx, k))
        TT(k) == Terms(ev.terms, M!E!TextOf(s.tx, k))
        tsf == [k \in {x[1] : x \in C} |-> TS(k)]
        ttf == [k \in {x[2] : x \in C} |-> TT(k)]
        docs == [k \in 1..Len(SetToSeq(DOMAIN tsf)) |-> tsf[SetToSeq(DOMAIN tsf)[k]]] \o [k \in 1..Len(SetToSeq(DOMAIN ttf)) |-> ttf[SetToSeq(DOMAIN ttf)[k]]]
        w == TLCEval([x \in W!Terms(docs) |-> (W!Ln(Len(docs)) - W!Ln(W!DocFreq(docs, x)) + 10000) \div 20000])
        got == [k \in 1..Len(c.cands) |-> Pair2(c.cands[k])]
        of == [x \in C |-> LET i == CHOOSE i \in 1..Len(got) : got[i] = x IN c.cands[i][3]]
        R == {Pair2(c.kept[k]) : k \in 1..Len(c.kept)}
    IN  IF Len(got) # Len(cands) \/ ToSet(got) # C THEN {"candidates"}
        ELSE If(\A k \in 1..Len(c.cands) : ScoreOk(ev, tsf[got[k][1]], ttf[got[k][2]], c.cands[k][3]), "similarity")
             \cup (IF ev.sim # "weighted" THEN {} ELSE
                   If(\A k \in 1..Len(c.cands) : WeightedOk(w, tsf[got[k][1]], ttf[got[k][2]], c.cands[k][3]), "weighted similarity"))
             \cup If(Cardinality(R) = Len(c.kept) /\ R \subseteq C, "kept candidates")
             \cup (IF R \subseteq C THEN If(M!FilterOk(ev.filter, C, R, LAMBDA x : of[x], ev.th * 100, s.f, s.t), "filter " \o ev.filter) ELSE {})
             \cup If(\A k \in 1..Len(c.kept) : Pair2(c.kept[k]) \in C => of[Pair2(c.kept[k])] = c.kept[k][3], "scores changed")
AlignBad(s, ev) ==
    LET from == IF ev.given THEN s.trees ELSE s.corpus
        conf == Conf(s, ev)
        all == M!Scopes(from, s.f, s.t, conf)
        sc == SelectSeq(all, LAMBDA p : M!Cands(p, s.f, s.t, conf) # <<>>)
        R == UNION {{Pair2(c.kept[k]) : k \in 1..Len(c.kept)} : c \in ToSet(ev.calls)}
        L == [k \in 1..Len(ev.links) |-> Pair2(ev.links[k])]
    IN  IF Len(sc) # Len(ev.calls) THEN {"scopes"}
        ELSE UNION {CallBad(s, ev, sc[k], ev.calls[k], conf) : k \in 1..Len(sc)}
             \cup If(ToSet(L) = ToSet(M!Start(from, s.f, s.t, conf)) \cup R, "alignments made")
             \cup If(Cardinality(ToSet(L)) = Len(L), "repeated alignments")
             \cup If(ev.method = ev.how, "alignment method")
TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" \/ ev.op # "align" THEN {} ELSE AlignBad(s, ev))
TrAfter(s, ev) ==
    LET seq == [k \in 1..Len(ev.links) |-> Pair2(ev.links[k])] IN
    CASE ev.op = "links" -> [s EXCEPT !.corpus = seq]
      [] ev.op = "trees" -> [s EXCEPT !.trees = s.corpus]
      [] ev.op = "align" -> IF ev.given THEN [s EXCEPT !.corpus = seq, !.trees = seq] ELSE [s EXCEPT !.corpus = seq]
=============================================================================
