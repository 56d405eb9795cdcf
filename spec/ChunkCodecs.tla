----------------------------- MODULE ChunkCodecs ----------------------------
(* An independent reader of chunks: Matches(codec, b, ws) says that the      *)
(* chunk bytes b hold exactly the words ws (64-bit sequences).               *)
EXTENDS ElfDecimal
X == INSTANCE XorCodecs WITH W <- 64, LenB <- 6, GLeadB <- 5, LeadB <- 3,
                             LeadTab <- <<0, 8, 12, 16, 18, 20, 22, 24>>, ElfB <- 4, RingB <- 7
B == INSTANCE Bits

Force(f) == <<>> \o f
BitsOfBytes(bs) == Force(B!UnpackBytes(bs, 8))
(* the eight bytes of a word, little-endian in the file                       *)
WordLE(bs, at) == BitsOfBytes([i \in 1..8 |-> bs[at + 9 - i]])
NaN == Force([i \in 1..64 |-> IF i \in 2..13 THEN 1 ELSE 0])

(* sign, exponent and mantissa of a double                                   *)
Neg(w) == w[1]
ExpField(w) == B!NatOf(SubSeq(w, 2, 12))
IsZero(w) == \A i \in 2..64 : w[i] = 0
Normal(w) == ExpField(w) \in 1..2046
Mant(w) == OfBits(<<1>> \o SubSeq(w, 13, 64))
Exp2(w) == ExpField(w) - 1075

----------------------------------------------------------------------------
UncompressedMatches(b, ws) ==
  /\ Len(b) = 8 * Len(ws)
  /\ \A i \in 1..Len(ws) : WordLE(b, 8 * (i - 1)) = ws[i]

(* number of runs (8 bytes), then (length 1, word 8) each                     *)
NumLE(b, at, n) == B!NatOf(BitsOfBytes([i \in 1..n |-> b[at + n + 1 - i]]))
RleMatches(b, ws) ==
  LET n == NumLE(b, 0, 3)
      r == FoldLeft(LAMBDA a, i :
             LET at == 8 + 9 * (i - 1)
                 len == b[at + 1]
                 w == WordLE(b, at + 1)
             IN IF ~a.ok \/ a.k + len > Len(ws) THEN [a EXCEPT !.ok = FALSE]
                ELSE [ok |-> \A j \in (a.k + 1)..(a.k + len) : ws[j] = w, k |-> a.k + len],
             [ok |-> TRUE, k |-> 0], [i \in 1..n |-> i])
  IN /\ Len(b) = 8 + 9 * n /\ b[4] = 0 /\ b[5] = 0 /\ b[6] = 0 /\ b[7] = 0 /\ b[8] = 0
     /\ r.ok /\ r.k = Len(ws)

(* the words in order, then the end marker                                    *)
XorMatches(c, b, ws) ==
  LET bits == BitsOfBytes(b)
      r == FoldLeft(LAMBDA a, w :
             IF ~a.ok THEN a
             ELSE LET d == X!Dec(c, a.st, bits, a.p) IN [ok |-> d.ok /\ d.v = w, st |-> d.st, p |-> d.p],
             [ok |-> TRUE, st |-> X!InitOf(c), p |-> 0], ws)
  IN r.ok /\ LET d == X!Dec(c, r.st, bits, r.p) IN d.ok /\ d.v = NaN

----------------------------------------------------------------------------
(* Elf: 0: erased, same beta*; 10: as is; 11 + beta* (4): erased.  Then the  *)
(* word of the inner coder.                                                  *)
SpOf(w) == CHOOSE s \in -12..12 : FirstPlaceV(s, Mant(w), Exp2(w))
(* w is what the erased word e with beta* stands for                          *)
Recovered(e, bs, w) ==
  /\ Normal(e) /\ Normal(w) /\ Neg(e) = Neg(w)
  /\ \E s \in -12..12 :
       /\ FirstPlaceV(s, Mant(e), Exp2(e))
       /\ IF bs = 0 THEN s < 0 /\ Nearest(Mant(w), Exp2(w), <<1>>, 0 - s - 1)
          ELSE LET a == bs - s - 1
               IN a >= 0 /\ Nearest(Mant(w), Exp2(w), RoundedUp(Mant(e), Exp2(e), a), a)
ElfFlag(bits, p, last) ==
  IF ~X!Has(bits, p, 1) THEN [ok |-> FALSE]
  ELSE IF bits[p + 1] = 0 THEN [ok |-> last # -1, er |-> TRUE, bs |-> last, p |-> p + 1]
  ELSE IF ~X!Has(bits, p, 2) THEN [ok |-> FALSE]
  ELSE IF bits[p + 2] = 0 THEN [ok |-> TRUE, er |-> FALSE, bs |-> last, p |-> p + 2]
  ELSE IF ~X!Has(bits, p, 6) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, er |-> TRUE, bs |-> B!NatOf(X!Take(bits, p + 2, 4)), p |-> p + 6]
ElfMatches(c, b, ws) ==
  LET bits == BitsOfBytes(b)
      Bad(a) == [a EXCEPT !.ok = FALSE]
      r == FoldLeft(LAMBDA a, w :
             IF ~a.ok THEN a
             ELSE LET f == ElfFlag(bits, a.p, a.bs)
                  IN IF ~f.ok THEN Bad(a)
                     ELSE LET d == X!Dec(c, a.st, bits, f.p)
                          IN IF ~d.ok THEN Bad(a)
                             ELSE [ok |-> IF f.er THEN Recovered(d.v, f.bs, w) ELSE d.v = w,
                                   st |-> d.st, p |-> d.p, bs |-> f.bs],
             [ok |-> TRUE, st |-> X!InitOf(c), p |-> 0, bs |-> -1], ws)
  IN r.ok /\ LET f == ElfFlag(bits, r.p, r.bs)
             IN f.ok /\ ~f.er /\ LET d == X!Dec(c, r.st, bits, f.p) IN d.ok /\ d.v = NaN

----------------------------------------------------------------------------
(* signed big numbers: <<sign, magnitude>>                                    *)
SAdd(x, y) == IF x[1] = y[1] THEN <<x[1], Add(x[2], y[2])>>
              ELSE IF Le(y[2], x[2]) THEN <<x[1], Sub(x[2], y[2])>> ELSE <<y[1], Sub(y[2], x[2])>>
TwosComplement(bits) == IF bits[1] = 0 THEN <<0, OfBits(bits)>> ELSE <<1, Sub(Shl(<<1>>, 64), OfBits(bits))>>
UnZigZag(z) == IF z = <<>> \/ z[1] % 2 = 0 THEN <<0, Shr(z, 1)>> ELSE <<1, Shr(Add(z, <<1>>), 1)>>
(* the double w is nearest to k / den                                         *)
IsQuotient(w, k, den) == IF k[2] = <<>> THEN IsZero(w)
                         ELSE Normal(w) /\ Neg(w) = k[1] /\ NearestQ(Mant(w), Exp2(w), k[2], den)

(* Delta-Sprintz: start (64), scale (32), width (8), then a zigzag           *)
(* difference of that width per record; a value is the running sum / scale   *)
SprintzMatches(b, ws) ==
  LET bits == BitsOfBytes(b)
      scale == OfBits(X!Take(bits, 64, 32))
      width == b[13]
      r == FoldLeft(LAMBDA a, w :
             IF ~a.ok \/ ~X!Has(bits, a.p, width) THEN [a EXCEPT !.ok = FALSE]
             ELSE LET k == SAdd(a.k, UnZigZag(OfBits(X!Take(bits, a.p, width))))
                  IN [ok |-> IsQuotient(w, k, scale), k |-> k, p |-> a.p + width],
             [ok |-> TRUE, k |-> TwosComplement(SubSeq(bits, 1, 64)), p |-> 104], ws)
  IN Len(b) >= 13 /\ r.ok

(* BUFF: base (8, little-endian two's complement), records (4), width (4),   *)
(* fractional bits (4); then the differences to the base in byte columns,    *)
(* the top byte first and with its top bit flipped like every full byte; the *)
(* remaining width % 8 bits (or the whole width when below 8) are packed     *)
(* from the low end of each byte.                                            *)
LowFirst(bs) == Force([i \in 1..(8 * Len(bs)) |-> (bs[(i - 1) \div 8 + 1] \div (2 ^ ((i - 1) % 8))) % 2])
(* the k-th group of n bits, lowest bit first, as a number                    *)
Packed(low, n, k) == FoldLeft(LAMBDA a, i : 2 * a + low[(k - 1) * n + n + 1 - i], 0, [i \in 1..n |-> i])
Flip(x) == (x + 128) % 256
BuffMatches(b, ws) ==
  LET n == NumLE(b, 8, 3)
      width == NumLE(b, 12, 3)
      frac == NumLE(b, 16, 3)
      base == TwosComplement(WordLE(b, 0))
      full == width \div 8
      rest == width % 8
      tail == LowFirst(SubSeq(b, 21 + full * n, Len(b)))
      Delta(i) ==
        LET top == FoldLeft(LAMBDA a, k : Add(Shl(a, 8), OfInt(Flip(b[20 + (k - 1) * n + i]))), <<>>, [k \in 1..full |-> k])
        IN Add(Shl(top, rest), OfInt(IF rest = 0 THEN 0 ELSE Packed(tail, rest, i)))
  IN /\ Len(b) >= 20 + full * n + (rest * n + 7) \div 8
     /\ n = Len(ws)
     /\ \A i \in 1..n : IsQuotient(ws[i], SAdd(base, <<0, Delta(i)>>), Shl(<<1>>, frac))

Matches(c, b, ws) ==
  CASE c = "uncompressed" -> UncompressedMatches(b, ws)
    [] c = "rle" -> RleMatches(b, ws)
    [] c \in {"gorilla", "chimp", "chimp128"} -> XorMatches(c, b, ws)
    [] c = "elf" -> ElfMatches("elf", b, ws)
    [] c = "elf_on_chimp" -> ElfMatches("chimp", b, ws)
    [] c = "delta_sprintz" -> SprintzMatches(b, ws)
    [] c = "buff" -> BuffMatches(b, ws)
=============================================================================
