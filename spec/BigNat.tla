------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as little-endian sequences of base-4096       *)
(* limbs without leading (top) zeros; <<>> is 0.                             *)
EXTENDS Integers, Sequences, SequencesExt
Base == 4096
RECURSIVE Norm(_)
Norm(x) == IF x = <<>> THEN x ELSE IF x[Len(x)] = 0 THEN Norm(SubSeq(x, 1, Len(x) - 1)) ELSE x
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfInt(n \div Base)
(* limbs of any size below 2^31 - Base to proper limbs                       *)
Carry(x) ==
  LET r == FoldLeft(LAMBDA a, d : <<Append(a[1], (d + a[2]) % Base), (d + a[2]) \div Base>>, <<<<>>, 0>>, x)
  IN Norm(r[1] \o OfInt(r[2]))
Limb(x, i) == IF i \in 1..Len(x) THEN x[i] ELSE 0
MaxN(a, b) == IF a > b THEN a ELSE b
Add(x, y) == Carry([i \in 1..MaxN(Len(x), Len(y)) |-> Limb(x, i) + Limb(y, i)])
(* x - y for x >= y                                                          *)
Sub(x, y) ==
  LET r == FoldLeft(LAMBDA a, i : LET d == x[i] - Limb(y, i) - a[2]
                                  IN <<Append(a[1], IF d < 0 THEN d + Base ELSE d), IF d < 0 THEN 1 ELSE 0>>,
                    <<<<>>, 0>>, [i \in 1..Len(x) |-> i])
  IN Norm(r[1])
RECURSIVE ConvSum(_, _, _, _)
ConvSum(x, y, k, i) == IF i > Len(x) \/ i > k THEN 0
                       ELSE (IF k + 1 - i <= Len(y) THEN x[i] * y[k + 1 - i] ELSE 0) + ConvSum(x, y, k, i + 1)
Mul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>>
             ELSE Carry([k \in 1..(Len(x) + Len(y) - 1) |-> ConvSum(x, y, k, MaxN(1, k + 1 - Len(y)))])
MulInt(x, n) == Carry([i \in 1..Len(x) |-> x[i] * n])        \* n < 2^18
(* x * 2^s                                                                   *)
Shl(x, s) == IF x = <<>> THEN x ELSE [i \in 1..(s \div 12) |-> 0] \o MulInt(x, 2 ^ (s % 12))
(* x div 2^s                                                                 *)
Shr(x, s) ==
  LET y == SubSeq(x, s \div 12 + 1, Len(x))
      k == s % 12
  IN IF k = 0 THEN y
     ELSE Norm([i \in 1..Len(y) |-> y[i] \div (2 ^ k) + (Limb(y, i + 1) % (2 ^ k)) * (2 ^ (12 - k))])
(* the number a bit sequence (most significant first) stands for             *)
RECURSIVE OfBits(_)
OfBits(b) == IF b = <<>> THEN <<>>
             ELSE LET n == IF Len(b) < 12 THEN Len(b) ELSE 12
                      top == SubSeq(b, 1, Len(b) - n)
                      low == SubSeq(b, Len(b) - n + 1, Len(b))
                      d == FoldLeft(LAMBDA a, x : 2 * a + x, 0, low)
                      r == OfBits(top)
                  IN IF r = <<>> THEN OfInt(d) ELSE <<d>> \o r
(* is x a multiple of 2^s?                                                   *)
Pow2Divides(x, s) == x = <<>> \/ (/\ Len(x) > s \div 12
                                  /\ \A i \in 1..(s \div 12) : x[i] = 0
                                  /\ x[s \div 12 + 1] % (2 ^ (s % 12)) = 0)
RECURSIVE CmpAt(_, _, _)
CmpAt(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] # y[i] THEN (IF x[i] < y[i] THEN -1 ELSE 1) ELSE CmpAt(x, y, i - 1)
Cmp(x, y) == IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1) ELSE CmpAt(x, y, Len(x))
Le(x, y) == Cmp(x, y) <= 0
Lt(x, y) == Cmp(x, y) < 0
AbsDiff(x, y) == IF Le(x, y) THEN Sub(y, x) ELSE Sub(x, y)
RECURSIVE Pow10Seq(_)
Pow10Seq(n) == IF n = 0 THEN <<<<1>>>> ELSE LET s == Pow10Seq(n - 1) IN Append(s, MulInt(s[n], 10))
Pow10Table == Pow10Seq(340)
Pow10(n) == Pow10Table[n + 1]
=============================================================================
