------------------------------- MODULE Scale -------------------------------
(* The number of decimal places of a number in a text, and the precision     *)
(* chosen for a data set of such numbers (C21). A number is the sequence of  *)
(* its characters.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* the first position of one of the characters, 0 if there is none           *)
Pos(t, cs) == LET S == {i \in 1..Len(t) : t[i] \in cs} IN IF S = {} THEN 0 ELSE MinOf(S)

Digit(ch) == CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4
               [] ch = "5" -> 5 [] ch = "6" -> 6 [] ch = "7" -> 7 [] ch = "8" -> 8 [] ch = "9" -> 9
Nat10(t) == FoldLeft(LAMBDA a, ch : 10 * a + Digit(ch), 0, t)
Int10(t) == IF t = <<>> THEN 0
            ELSE IF t[1] = "-" THEN -Nat10(Tail(t))
            ELSE IF t[1] = "+" THEN Nat10(Tail(t)) ELSE Nat10(t)

Mantissa(t) == LET e == Pos(t, {"e", "E"}) IN IF e = 0 THEN t ELSE SubSeq(t, 1, e - 1)
Exponent(t) == LET e == Pos(t, {"e", "E"}) IN IF e = 0 THEN 0 ELSE Int10(SubSeq(t, e + 1, Len(t)))
FracLen(m)  == LET d == Pos(m, {"."}) IN IF d = 0 THEN 0 ELSE Len(m) - d

(* decimal places as written: 1.50 has two, 1.5e-3 has four, 15e1 none       *)
Places(t) == LET p == FracLen(Mantissa(t)) - Exponent(t) IN IF p > 0 THEN p ELSE 0

AllPlaces(ts) == [i \in 1..Len(ts) |-> Places(ts[i])]
AtLeast(ps, p) == Cardinality({i \in 1..Len(ps) : ps[i] >= p})

(* the places of the most precise number                                     *)
Exact(ps) == MaxOf({ps[i] : i \in 1..Len(ps)})
(* the largest precision that at least one number in K reaches               *)
Common(ps, K) == MaxOf({p \in {ps[i] : i \in 1..Len(ps)} : K * AtLeast(ps, p) >= Len(ps)})
=============================================================================
