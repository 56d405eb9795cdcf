-------------------------------- MODULE Bits --------------------------------
(* Bit sequences, most significant bit first. A "word" of width w is a       *)
(* sequence of w bits; a byte string is a sequence of integers 0..2^B-1.     *)
EXTENDS Naturals, Sequences

Bit == {0, 1}

Zeros(n) == [i \in 1..n |-> 0]

(* the n low bits of the non-negative integer v (v < 2^31)                   *)
BitsOf(v, n) == [i \in 1..n |-> (v \div (2 ^ (n - i))) % 2]

RECURSIVE NatOf(_)
NatOf(b) == IF b = <<>> THEN 0
            ELSE 2 * NatOf(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]

(* the last n bits of b                                                      *)
Low(b, n) == SubSeq(b, Len(b) - n + 1, Len(b))

CeilDiv(a, b) == (a + b - 1) \div b

(* The bit string padded with zeros to whole bytes of B bits, as integers.   *)
PackBytes(b, B) ==
  LET n == CeilDiv(Len(b), B)
      At(i) == IF i <= Len(b) THEN b[i] ELSE 0
      Byte(k) == IF B = 8
                 THEN LET o == 8 * (k - 1)
                      IN 128*At(o+1) + 64*At(o+2) + 32*At(o+3) + 16*At(o+4)
                         + 8*At(o+5) + 4*At(o+6) + 2*At(o+7) + At(o+8)
                 ELSE NatOf([j \in 1..B |-> At(B * (k - 1) + j)])
  IN [k \in 1..n |-> Byte(k)]

(* All bits of a byte string.                                                *)
UnpackBytes(bs, B) ==
  [i \in 1..(B * Len(bs)) |->
     (bs[((i - 1) \div B) + 1] \div (2 ^ (B - 1 - ((i - 1) % B)))) % 2]

(* (<<>> \o: TLC evaluates the function at once instead of keeping it lazy)   *)
XorW(a, b) == <<>> \o [i \in 1..Len(a) |-> IF a[i] = b[i] THEN 0 ELSE 1]

IsZeroW(a) == \A i \in 1..Len(a) : a[i] = 0

LeadingZeros(a) ==
  IF IsZeroW(a) THEN Len(a)
  ELSE (CHOOSE i \in 1..Len(a) : a[i] = 1 /\ \A j \in 1..(i-1) : a[j] = 0) - 1

TrailingZeros(a) ==
  IF IsZeroW(a) THEN Len(a)
  ELSE Len(a) - (CHOOSE i \in 1..Len(a) : a[i] = 1 /\ \A j \in (i+1)..Len(a) : a[j] = 0)
=============================================================================
