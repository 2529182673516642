------------------------------- MODULE TfIdf -------------------------------
(* Term weights of a collection of documents (daeso.string.tf_idf).  A document
   is a sequence of terms.  Logarithms come from a table, in units of 1/1000000. *)
EXTENDS Num, TLC, Json

CONSTANTS Items, MaxLen, Width
VARIABLES seqs, hist
wvars == <<seqs, hist>>

LnTab == <<0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 3218876, 3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736, 3496508, 3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879, 3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201, 3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051, 4060443, 4077537, 4094345>>
Ln(k) == LnTab[k]
Types(q) == {q[i] : i \in 1..Len(q)}
Terms(docs) == UNION {Types(docs[d]) : d \in 1..Len(docs)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
DocFreq(docs, x) == Cardinality({d \in 1..Len(docs) : x \in Types(docs[d])})
\* weights in units of 1/10000; normalized: divided by the largest possible value
Idf(docs, x, norm) ==
    LET n == Len(docs)  v == Ln(n) - Ln(DocFreq(docs, x)) IN
    IF norm /\ n > 1 THEN Frac(v \div 100, Ln(n) \div 100, 10000) ELSE (v + 50) \div 100
Tf(q, x, ind) == IF ind THEN <<IF x \in Types(q) THEN 1 ELSE 0, 1>> ELSE <<Count(q, x), Len(q)>>
Weight(docs, d, x, norm, ind) == LET t == Tf(docs[d], x, ind) IN IF t[1] = 0 THEN 0 ELSE (2 * Idf(docs, x, norm) * t[1] + t[2]) \div (2 * t[2])

\* ---- model
Init == seqs = <<>> /\ hist = <<>>
Seqs == UNION {[1..n -> Items] : n \in 0..MaxLen}
Next == /\ Len(seqs) < Width
        /\ \E q \in Seqs : seqs' = Append(seqs, q)
        /\ hist' = seqs'
Spec == Init /\ [][Next]_wvars
View == seqs
Emit == Len(seqs') >= 1 => PrintT("PLAN " \o ToJson(hist'))

\* ---- laws
Zero == \A x \in Terms(seqs) : (Idf(seqs, x, FALSE) = 0) <=> \A d \in 1..Len(seqs) : x \in Types(seqs[d])
Bound == \A x \in Terms(seqs), d \in 1..Len(seqs) :
    /\ 0 <= Weight(seqs, d, x, TRUE, FALSE) /\ Weight(seqs, d, x, TRUE, FALSE) <= 10000
    /\ Weight(seqs, d, x, FALSE, FALSE) <= Weight(seqs, d, x, FALSE, TRUE)
    /\ (x \notin Types(seqs[d]) => Weight(seqs, d, x, FALSE, FALSE) = 0 /\ Weight(seqs, d, x, FALSE, TRUE) = 0)
Rarer == \A x, y \in Terms(seqs) : DocFreq(seqs, x) <= DocFreq(seqs, y) => Idf(seqs, x, FALSE) >= Idf(seqs, y, FALSE)
Order == \A x \in Terms(seqs) : LET r == [k \in 1..Len(seqs) |-> seqs[Len(seqs) + 1 - k]] IN Idf(r, x, TRUE) = Idf(seqs, x, TRUE)
=============================================================================
