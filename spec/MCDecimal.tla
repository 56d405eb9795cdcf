------------------------------ MODULE MCDecimal -----------------------------
(* Why the fractional bits of BUFF suffice (C02): a decimal k / 10^p is cut  *)
(* to Bits[p] fractional bits towards zero, kept as a difference to the      *)
(* smallest value of its chunk, and read back from all columns, or, for a    *)
(* precision q, from columns until no needed bit is left.  The value is off  *)
(* by less than half a unit of place p (of place q).                         *)
EXTENDS Columns, TLC
CONSTANTS K, P, ZeroBits
Bits == <<0, 5, 8, 11, 15, 18, 21, 25, 28>>        \* of places 0..8
(* the general reason, for all places that fit TLC's integers                *)
ASSUME \A p \in 1..8 : 2 * 10 ^ p < 2 ^ Bits[p + 1]
Fixed(k, p) == LET m == IF k < 0 THEN -k ELSE k
                   f == (m * 2 ^ Bits[p + 1]) \div 10 ^ p
               IN IF k < 0 THEN -f ELSE f
Asked(q) == IF Bits[q + 1] < ZeroBits THEN ZeroBits ELSE Bits[q + 1]
VARIABLES p, q, k, base, w, cols, done
vars == <<p, q, k, base, w, cols, done>>
(* the rest of the chunk is any smallest value and any width it may have      *)
Init == /\ p \in 0..P /\ q \in 0..p /\ k \in -K..K
        /\ base \in {Fixed(k, p) - d : d \in {0, 1, 2, 3, 7, 8, 31, 100, 255, 256, 511, 1000, 5000}}
        /\ w \in {BitsFor(Fixed(k, p) - base) + e : e \in {0, 1, 2, 3, 5, 8, 9}}
        /\ cols = (IF w = 0 THEN 0 ELSE 1) /\ done = FALSE
Unneeded == IF Bits[p + 1] > Asked(q) THEN Bits[p + 1] - Asked(q) ELSE 0
More == cols < NCols(w) /\ Below(w, cols) > Unneeded
Read == ~done /\ (IF More THEN cols' = cols + 1 /\ done' = FALSE ELSE done' = TRUE /\ cols' = cols)
        /\ UNCHANGED <<p, q, k, base, w>>
Spec == Init /\ [][Read]_vars
Value == base + (IF w = 0 THEN 0 ELSE FromFirst([j \in 1..NCols(w) |-> Part(Fixed(k, p) - base, w, j)], w, cols))
Abs(x) == IF x < 0 THEN -x ELSE x
(* |Value / 2^f - k / 10^p| < 1/2 * 10^-q                                     *)
HalfUnit == done => 2 * Abs(Value * 10 ^ p - k * 2 ^ Bits[p + 1]) < 10 ^ (p - q) * 2 ^ Bits[p + 1]
=============================================================================
