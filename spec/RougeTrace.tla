----------------------------- MODULE RougeTrace -----------------------------
(* Judges recorded n-grams, skip bigrams and ROUGE scores. Scores are in units of 1/10000. *)
EXTENDS TraceBase
M == INSTANCE Rouge WITH Items <- {}, MaxLen <- 0, Width <- 0, seqs <- st, hist <- ti
S == INSTANCE Sim WITH Items <- {}, MaxLen <- 0, Width <- 0, seqs <- st, hist <- ti

TrStart(ev) == Nil
If(c, n) == IF c THEN {} ELSE {n}
Form(k) == IF k \in {"str", "unicode"} THEN "string" ELSE k
Q(fr, x) == S!Near(x, S!Frac(fr[1], fr[2], 10000), 1)
PadOf(ev, n) == S!Pad(ev.a, n, ev.with)
NGramsBad(ev) ==
    LET q == PadOf(ev, IF ev.pad < 0 THEN 0 ELSE ev.pad)  g == S!Slices(q, ev.n) IN
    If(ev.slices = g, "n-grams") \cup If(ToSet(ev.forms) \subseteq {Form(ev.ka)}, "type of n-grams")
    \cup If(ev.strings = S!Grams(q, ev.n, ev.sep), "n-gram strings")
RangeBad(ev) ==
    LET padOf(k) == IF ~ev.on THEN 0 ELSE IF ev.sizes # <<>> THEN ev.sizes[k] ELSE ev.ns[k] - 1 IN
    If(ToSet(ev.keys) = ToSet(ev.ns) /\ Len(ev.keys) = Cardinality(ToSet(ev.ns)), "sizes")
    \cup If(\A k \in 1..Len(ev.ns) : ev.res[k] = S!Slices(PadOf(ev, padOf(k)), ev.ns[k]), "n-grams by size")
SGramsBad(ev) ==
    If(ev.res = M!Skips(ev.a, ev.d), "skip bigrams") \cup If(ev.padded = M!Skips(S!Pad(ev.a, 1, "_"), ev.d), "padded skip bigrams")
TrFailing(s, ev) ==
    If(ev.exc = "", "operation failed")
    \cup (IF ev.exc # "" THEN {} ELSE If(ev.kept, "arguments changed") \cup
          CASE ev.op = "ngrams" -> NGramsBad(ev) [] ev.op = "range" -> RangeBad(ev) [] ev.op = "sgrams" -> SGramsBad(ev)
            [] ev.op = "rouge_n" -> If(Q(M!RougeN(ev.a, ev.refs, ev.n), ev.res), "ROUGE-N")
            [] ev.op = "rouge_l" -> If(Q(M!RougeL(ev.a, ev.b, ev.beta), ev.res), "ROUGE-L")
            [] ev.op = "rouge_s" -> If(Q(M!RougeS(ev.a, ev.b, ev.d, ev.beta), ev.res), "ROUGE-S")
                                    \cup If(Q(M!RougeSU(ev.a, ev.b, ev.d, ev.beta), ev.su), "ROUGE-SU"))
TrAfter(s, ev) == s
=============================================================================
