------------------------------ MODULE SimTrace ------------------------------
(* Judges recorded similarities and term weights.  In units of 1/10000 (cosine: 1/1000). *)
EXTENDS TraceBase
S == INSTANCE Sim WITH Items <- {}, MaxLen <- 0, Width <- 0, seqs <- st, hist <- ti
W == INSTANCE TfIdf WITH Items <- {}, MaxLen <- 0, Width <- 0, seqs <- st, hist <- ti

TrStart(ev) == Nil
If(c, n) == IF c THEN {} ELSE {n}
Q(fr, x) == S!Near(x, S!Frac(fr[1], fr[2], 10000), 1)
SimBad(ev) ==
    UNION {If(Q(S!Measure(m, ev.a, ev.b), ev[m]), m) : m \in S!Measures}
    \cup If(ev.overlap = ev.overlap_min, "overlap")
    \cup If(S!RootOk(ev.cosine, S!Inter(ev.a, ev.b), Len(ev.a) * Len(ev.b), 1000), "cosine")
    \cup If(ev.type_match = S!TypeMatch(ev.a, ev.b), "type match") \cup If(ev.token_match = S!TokenMatch(ev.a, ev.b), "token match")
GSimBad(ev) ==
    If(Q(S!GDice(ev.seqs), ev.dice), "generalized dice") \cup If(Q(S!GJaccard(ev.seqs), ev.jaccard), "generalized jaccard")
    \cup If(S!RootOk(ev.cosine, S!NInter(ev.seqs), IF ev.seqs = <<>> THEN 0 ELSE S!ProdAll(ev.seqs), 1000), "generalized cosine")
WeightsBad(ev) ==
    LET n == Len(ev.docs)
        w(d, x) == IF ev.f = "idf" THEN W!Idf(ev.docs, x, ev.norm) ELSE W!Weight(ev.docs, d, x, ev.norm, ev.ind)
    IN IF ToSet(ev.terms) # W!Terms(ev.docs) \/ Cardinality(ToSet(ev.terms)) # Len(ev.terms) THEN {"terms"}
       ELSE IF Len(ev.weights) # n \/ \E d \in 1..Len(ev.weights) : Len(ev.weights[d]) # Len(ev.terms) THEN {"shape of the weights"}
       ELSE If(\A d \in 1..n, k \in 1..Len(ev.terms) : S!Near(ev.weights[d][k], w(d, ev.terms[k]), 2), "weights")
TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE If(ev.kept, "arguments changed") \cup
          CASE ev.op = "sim" -> SimBad(ev) [] ev.op = "gsim" -> GSimBad(ev) [] ev.op = "tfidf" -> WeightsBad(ev))
TrAfter(s, ev) == s
=============================================================================
