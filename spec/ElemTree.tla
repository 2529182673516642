------------------------------ MODULE ElemTree ------------------------------
(* Index of a document tree (daeso.ptc.ielemtree).  A tree is the sequence of
   its elements in document order: [tag, depth, id, text, tail], texts stripped.
   cfg: the tags to ignore, and the tags that end with a newline or blank line. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Tags, Texts, Tails, MaxNodes
VARIABLES tree, hist
evars == <<tree, hist>>

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* last element of the subtree of k
Last(t, k) == LET after == {j \in (k+1)..Len(t) : t[j].depth <= t[k].depth} IN IF after = {} THEN Len(t) ELSE Min(after) - 1
Below(t, k) == (k+1)..Last(t, k)
RECURSIVE Kids(_, _, _)     \* elements of depth d from j up to m
Kids(t, j, m) == IF j > m THEN <<>> ELSE <<j>> \o Kids(t, Last(t, j) + 1, m)
Children(t, k) == Kids(t, k + 1, Last(t, k))
Break(cfg, tag) == IF tag \in cfg.blank THEN "\n\n" ELSE IF tag \in cfg.newline THEN "\n" ELSE ""

\* spans (from 0; <<-1, -1>> when ignored) of the subtree of k, and its text with tail
RECURSIVE Walk(_, _, _, _, _), WalkKids(_, _, _, _, _, _)
Walk(t, k, start, ign, cfg) ==
    LET off == ign \/ t[k].tag \in cfg.ignore
        kids == WalkKids(t, Children(t, k), 1, start + Len(t[k].text), off, cfg)
        inner == t[k].text \o kids.text
    IN  [spans |-> (k :> IF off THEN <<-1, -1>> ELSE <<start, start + Len(inner)>>) @@ kids.spans,
         text  |-> (IF off THEN "" ELSE inner \o Break(cfg, t[k].tag)) \o t[k].tail]
WalkKids(t, ks, i, start, ign, cfg) ==
    IF i > Len(ks) THEN [spans |-> [x \in {} |-> <<0, 0>>], text |-> ""]
    ELSE LET a == Walk(t, ks[i], start, ign, cfg)
             b == WalkKids(t, ks, i + 1, start + Len(a.text), ign, cfg)
         IN  [spans |-> a.spans @@ b.spans, text |-> a.text \o b.text]
Index(t, cfg) == Walk(t, 1, 0, FALSE, cfg)
\* text of an element; none for an ignored element
TextOf(ix, k) == IF ix.spans[k][1] < 0 THEN "" ELSE SubSeq(ix.text, ix.spans[k][1] + 1, ix.spans[k][2])
Ignored(t, cfg, k) == \E j \in 1..k : k <= Last(t, j) /\ t[j].tag \in cfg.ignore
\* position among the elements of the same tag
Nth(t, k) == Cardinality({j \in 1..k : t[j].tag = t[k].tag})
Tagged(t, tag) == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : t[k].tag = tag)
WithId(t, tag, id) == LET S == {k \in 1..Len(t) : t[k].tag = tag /\ t[k].id = id} IN
                      IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k

\* ---- model: grow a document element by element
Init == /\ \E g \in Tags, x \in Texts : tree = <<[tag |-> g, depth |-> 0, id |-> "", text |-> x, tail |-> ""]>>
        /\ hist = <<>>
Grow == /\ Len(tree) < MaxNodes
        /\ \E g \in Tags, x \in Texts, y \in Tails, d \in 1..(tree[Len(tree)].depth + 1) :
             tree' = Append(tree, [tag |-> g, depth |-> d, id |-> "", text |-> x, tail |-> y])
        /\ hist' = tree'
Next == Grow
Spec == Init /\ [][Next]_evars
View == tree
Emit == Len(tree') = MaxNodes => PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
Cfgs == {[ignore |-> i, newline |-> n, blank |-> {}] : i \in SUBSET Tags, n \in SUBSET Tags}
Visible(ix) == {k \in DOMAIN ix.spans : ix.spans[k][1] >= 0}
Total == \A c \in Cfgs : LET ix == Index(tree, c) IN
    /\ DOMAIN ix.spans = 1..Len(tree)
    /\ \A k \in 1..Len(tree) : (k \notin Visible(ix)) <=> Ignored(tree, c, k)
Nested == \A c \in Cfgs : LET ix == Index(tree, c)  s == ix.spans IN
    \A k \in Visible(ix), j \in Visible(ix) :
        /\ 0 <= s[k][1] /\ s[k][1] <= s[k][2] /\ s[k][2] <= Len(ix.text)
        /\ j \in Below(tree, k) => s[k][1] <= s[j][1] /\ s[j][2] <= s[k][2]
        /\ j > Last(tree, k) => s[k][2] <= s[j][1]
\* the text of an element does not depend on what is around it
Own == \A c \in Cfgs : LET ix == Index(tree, c) IN
    \A k \in Visible(ix) : LET sub == SubSeq(tree, k, Last(tree, k))
                               rel == [j \in 1..Len(sub) |-> [sub[j] EXCEPT !.depth = @ - tree[k].depth]] IN
                           TextOf(ix, k) = TextOf(Index(rel, c), 1)
\* ignoring more only removes text
Fewer == \A c \in Cfgs : Len(Index(tree, c).text) <= Len(Index(tree, [c EXCEPT !.ignore = {}]).text)
Counting == \A k \in 1..Len(tree) : Tagged(tree, tree[k].tag)[Nth(tree, k)] = k
=============================================================================
