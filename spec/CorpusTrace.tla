----------------------------- MODULE CorpusTrace -----------------------------
EXTENDS TraceBase
M == INSTANCE Corpus WITH PairNames <- {}, MaxN <- 0, Hi <- 0, MaxDepth <- 0,
                          Family <- "", s <- st, hist <- ti
TrStart(ev) == M!Empty

Triples(q) == {<<q[k][1], q[k][2], q[k][3]>> : k \in 1..Len(q)}

CorBad(s, ob) ==
    LET x == s.cor[ob.name] IN
    (IF ob.cls THEN {} ELSE {"the result is a corpus"})
    \cup (IF ob.q = x.q THEN {} ELSE {"graph pairs in order"})
    \cup (IF ob.len = Len(x.q) THEN {} ELSE {"length"})
    \cup (IF ob.items = x.q THEN {} ELSE {"items by index"})
    \cup (IF ob.rev = M!Rev(x.q) THEN {} ELSE {"reversed iteration"})
    \cup (IF ob.rels = x.rels THEN {} ELSE {"relations"})
    \cup (IF ob.meta = x.meta THEN {} ELSE {"meta-data element"})
    \cup (IF ob.tok = M!MetaTok(s, x.meta) THEN {} ELSE {"meta-data content"})
    \cup (IF ob.ann = M!Annot(M!MetaTok(s, x.meta)) THEN {} ELSE {"annotator"})
PairBad(s, ob) ==
    LET x == s.pairs[ob.name] IN
    (IF Triples(ob.al) = x.al /\ Len(ob.al) = Cardinality(x.al) THEN {} ELSE {"alignments of a pair"})
    \cup (IF ob.meta = x.meta THEN {} ELSE {"meta-data of a pair"})
    \cup (IF ob.key = x.key THEN {} ELSE {"banks and graphs of a pair"})

TrFailing(s, ev) ==
    LET r == M!Apply(s, ev) IN
    (IF (ev.exc = "") = r.ok THEN {} ELSE {IF r.ok THEN "operation failed" ELSE "operation should be refused"})
    \cup (IF r.ok /\ ev.exc = "" /\ ev.rs # r.rs THEN {"result"} ELSE {})
    \cup (IF r.ok /\ ev.exc = "" /\ ev.ri # r.ri THEN {"result"} ELSE {})
    \cup (IF "obs" \in DOMAIN ev THEN
            (IF {ev.obs[k].name : k \in 1..Len(ev.obs)} = DOMAIN r.st.cor
             THEN UNION {CorBad(r.st, ev.obs[k]) : k \in 1..Len(ev.obs)} ELSE {"corpora made"})
          ELSE {})
    \cup (IF "pobs" \in DOMAIN ev THEN
            (IF {ev.pobs[k].name : k \in 1..Len(ev.pobs)} = DOMAIN r.st.pairs
             THEN UNION {PairBad(r.st, ev.pobs[k]) : k \in 1..Len(ev.pobs)} ELSE {"pairs made"})
          ELSE {})
    \cup (IF "eqs" \in DOMAIN ev /\ (\E k \in 1..Len(ev.eqs) :
                LET e == M!CorEq(r.st, ev.eqs[k].c, ev.eqs[k].d) IN
                ~(ev.eqs[k].eq = e /\ ev.eqs[k].ne = ~e))
          THEN {"equality/inequality of corpora"} ELSE {})
TrAfter(s, ev) == M!Apply(s, ev).st
=============================================================================
