------------------------------ MODULE MCDeltas ------------------------------
(* Delta-Sprintz: a chunk is the first quantized value, a width and one      *)
(* zigzag difference of that width per record, packed one after the other.   *)
(* A query walks the differences once, keeping the running value and a       *)
(* cursor into the selected records; it may stop early.  For every chunk,    *)
(* place of the chunk in the file, selection and query within the bounds,    *)
(* the walk gives what the values give (C06, C07), and the chunk is read     *)
(* back (C02).  Early = TRUE takes up the running value only at selected     *)
(* records: must fail.                                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS N, Lo, Hi, Off, Early
LoV == -1
Zig(d) == IF d < 0 THEN -2 * d - 1 ELSE 2 * d
Zag(z) == IF z % 2 = 0 THEN z \div 2 ELSE -((z + 1) \div 2)
RECURSIVE OrOf(_, _)
OrOf(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * OrOf(a \div 2, b \div 2)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Deltas(x) == [i \in 1..Len(x) |-> Zig(x[i] - (IF i = 1 THEN x[1] ELSE x[i - 1]))]
(* the width comes from the bits set in any difference                        *)
WidthOf(x) == BitLen(FoldLeft(LAMBDA a, z : OrOf(a, z), 0, Deltas(x)))
BitsMSB(z, w) == [i \in 1..w |-> (z \div 2 ^ (w - i)) % 2]
PackAll(x) == LET w == WidthOf(x) IN FoldLeft(LAMBDA a, z : a \o BitsMSB(z, w), <<>>, Deltas(x))
Group(bits, w, i) == FoldLeft(LAMBDA a, k : 2 * a + bits[(i - 1) * w + k], 0, [k \in 1..w |-> k])

Cmp == {"eq", "ne", "gt", "ge", "lt", "le"}
VARIABLES xs, first, w, bits, off, mask, op, c, i, prev, cur, acc, hit, fin
vars == <<xs, first, w, bits, off, mask, op, c, i, prev, cur, acc, hit, fin>>
Init == /\ xs \in UNION {[1..k -> Lo..Hi] : k \in 1..N}
        /\ first = xs[1] /\ w = WidthOf(xs) /\ bits = PackAll(xs)
        /\ off = 0 /\ mask = <<>> /\ op = "none" /\ c = 0
        /\ i = 0 /\ prev = 0 /\ cur = 1 /\ acc = <<>> /\ hit = {} /\ fin = FALSE
(* the selected records may lie before, in and behind the chunk              *)
Ask == /\ op = "none"
       /\ off' \in 0..Off
       /\ \E s \in SUBSET (0..(off' + Len(xs))) :
            mask' = SelectSeq([k \in 1..(off' + Len(xs) + 1) |-> k - 1], LAMBDA r : r \in s)
       /\ op' \in Cmp \cup {"sum", "min", "max"}
       /\ c' \in (IF op' \in Cmp THEN (Lo - 1)..(Hi + 1) ELSE {0})
       /\ prev' = first
       (* the cursor starts at the first selected record that is in the chunk   *)
       /\ cur' = Len(SelectSeq(mask', LAMBDA r : r < off')) + 1
       /\ UNCHANGED <<xs, first, w, bits, i, acc, hit, fin>>
In(r) == off <= r /\ r < off + Len(xs)
Holds(o, x) == CASE o = "eq" -> x = c [] o = "ne" -> x # c [] o = "gt" -> x > c [] o = "ge" -> x >= c
                 [] o = "lt" -> x < c [] o = "le" -> x <= c
Left == cur <= Len(mask) /\ In(mask[cur])
Step ==
  /\ op # "none" /\ ~fin /\ i < Len(xs) /\ (op \in Cmp \/ Left)
  /\ LET v == prev + Zag(Group(bits, w, i + 1))
         rec == off + i
         here == Left /\ mask[cur] = rec
     IN /\ prev' = IF Early /\ ~here THEN prev ELSE v
        /\ i' = i + 1
        /\ IF op \in Cmp
           THEN hit' = (IF Holds(op, v) THEN hit \cup {rec} ELSE hit) /\ UNCHANGED <<cur, acc>>
           ELSE IF here
           THEN /\ cur' = cur + 1
                /\ acc' = IF acc = <<>> THEN <<v>>
                          ELSE <<CASE op = "sum" -> acc[1] + v
                                   [] op = "min" -> IF v < acc[1] THEN v ELSE acc[1]
                                   [] OTHER -> IF v > acc[1] THEN v ELSE acc[1]>>
                /\ UNCHANGED hit
           ELSE UNCHANGED <<cur, acc, hit>>
  /\ UNCHANGED <<xs, first, w, bits, off, mask, op, c, fin>>
End == /\ op # "none" /\ ~fin /\ (i = Len(xs) \/ (op \notin Cmp /\ ~Left))
       /\ fin' = TRUE
       /\ hit' = hit \cap {mask[k] : k \in 1..Len(mask)}
       /\ UNCHANGED <<xs, first, w, bits, off, mask, op, c, i, prev, cur, acc>>
Next == Ask \/ Step \/ End
Spec == Init /\ [][Next]_vars
(* ---- what it has to be ---- *)
Chosen == {k \in 1..Len(xs) : \E m \in 1..Len(mask) : mask[m] = off + k - 1}
FilterOK == (fin /\ op \in Cmp) => hit = {off + k - 1 : k \in {q \in Chosen : Holds(op, xs[q])}}
AggOK == (fin /\ op \notin Cmp) =>
           IF Chosen = {} THEN acc = <<>>
           ELSE CASE op = "sum" -> acc = <<FoldLeft(LAMBDA a, k : IF k \in Chosen THEN a + xs[k] ELSE a, 0, [k \in 1..Len(xs) |-> k])>>
                  [] op = "min" -> acc[1] \in {xs[k] : k \in Chosen} /\ \A k \in Chosen : acc[1] <= xs[k]
                  [] OTHER -> acc[1] \in {xs[k] : k \in Chosen} /\ \A k \in Chosen : acc[1] >= xs[k]
ReadBack == op = "none" =>
              /\ Len(bits) = w * Len(xs)
              /\ FoldLeft(LAMBDA a, k : Append(a, (IF k = 1 THEN first ELSE a[k - 1]) + Zag(Group(bits, w, k))),
                          <<>>, [k \in 1..Len(xs) |-> k]) = xs
(* the width is that of the largest difference, and none is narrower          *)
Tight == op = "none" => /\ \A k \in 1..Len(xs) : Deltas(xs)[k] < 2 ^ w
                        /\ w > 0 => \E k \in 1..Len(xs) : Deltas(xs)[k] >= 2 ^ (w - 1)
ASSUME \A d \in -300..300 : Zag(Zig(d)) = d /\ Zig(d) >= 0
ASSUME \A z \in 0..600 : Zig(Zag(z)) = z
=============================================================================
