------------------------------- MODULE Columns ------------------------------
(* Chunks of integers kept as differences to the smallest one, cut into      *)
(* columns of CB bits from the top; the last column holds what remains       *)
(* (BUFF).  Queries look at one column after the other, only for the records *)
(* the columns before left undecided.                                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANT CB
BitsFor(d) == IF d = 0 THEN 0 ELSE CHOOSE n \in 1..40 : 2 ^ (n - 1) <= d /\ d < 2 ^ n
Least(xs) == CHOOSE x \in {xs[i] : i \in 1..Len(xs)} : \A i \in 1..Len(xs) : x <= xs[i]
Largest(xs) == CHOOSE x \in {xs[i] : i \in 1..Len(xs)} : \A i \in 1..Len(xs) : x >= xs[i]
Width(xs) == BitsFor(Largest(xs) - Least(xs))
(* number of the columns, and the part of a difference in column j (1..)      *)
NCols(w) == (w + CB - 1) \div CB
Below(w, j) == IF w - j * CB < 0 THEN 0 ELSE w - j * CB         \* bits under column j
ColBits(w, j) == w - (j - 1) * CB - Below(w, j)
Part(d, w, j) == (d \div 2 ^ Below(w, j)) % (2 ^ ColBits(w, j))
(* a chunk is read back from its columns                                      *)
FromParts(ps, w) == FoldLeft(LAMBDA a, j : a + ps[j] * 2 ^ Below(w, j), 0, [j \in 1..NCols(w) |-> j])
(* ... or from the first of them only                                         *)
FromFirst(ps, w, k) == FoldLeft(LAMBDA a, j : a + ps[j] * 2 ^ Below(w, j), 0, [j \in 1..k |-> j])
=============================================================================
