----------------------------- MODULE ElfDecimal -----------------------------
(* The decimal arithmetic under Elf (C14), exactly.  A positive double is    *)
(* m * 2^e with a normalized 53-bit m; a decimal is d / 10^a.                *)
EXTENDS BigNat

(* x * 2^ex against y * 2^ey: both sides brought to integers                 *)
Lift(x, ex, base) == Shl(x, ex - base)
MinN(a, b) == IF a < b THEN a ELSE b

(* m * 2^e * 10^a and d, over the common unit 2^Min(e, 0)                     *)
ScaledV(m, e, a) == Lift(Mul(m, Pow10(a)), e, MinN(e, 0))
ScaledD(d, e) == Lift(d, 0, MinN(e, 0))
Two52 == Shl(<<1>>, 52)

(* m * 2^e is the double nearest to num / den (ties to even)                 *)
NearestQ(m, e, num, den) ==
  LET v == Lift(Mul(m, den), e, MinN(e, 0))
      x == ScaledD(num, e)
      diff == AbsDiff(v, x)
      ulp == Lift(den, e, MinN(e, 0))                \* 2^e * den
      below == m = Two52 /\ Lt(x, v)                 \* the spacing halves below a power of two
      c == Cmp(IF below THEN MulInt(diff, 4) ELSE MulInt(diff, 2), ulp)
  IN c < 0 \/ (c = 0 /\ m[1] % 2 = 0)
Nearest(m, e, d, a) == NearestQ(m, e, d, Pow10(a))

(* d rounded to 53 bits: the product m*2^e*10^a, correctly rounded, is d.     *)
(* d is an integer below 2^53, hl its half spacing as [n, e]: n * 2^e         *)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Bits(x) == IF x = <<>> THEN 0 ELSE 12 * (Len(x) - 1) + BitLen(x[Len(x)])
ProductRoundsTo(m, e, a, d) ==
  LET diff == AbsDiff(ScaledV(m, e, a), ScaledD(d, e))       \* unit 2^Min(e,0)
      k == Bits(d) - 53                                      \* d's spacing is 2^k, k <= 0
      unit == MinN(e, 0)
  \* strictly inside a quarter of the spacing: true of both neighbours
  IN k - 2 >= unit /\ Lt(diff, Shl(<<1>>, k - 2 - unit))

(* place of the first significant digit: 10^sp <= d/10^a < 10^(sp+1)          *)
PowLe(k, d, a) == IF k + a >= 0 THEN Le(Pow10(k + a), d) ELSE TRUE   \* 10^k <= d/10^a
FirstPlace(sp, d, a) == PowLe(sp, d, a) /\ ~PowLe(sp + 1, d, a)

(* the same for a double: a power of ten counts as its nearest double         *)
PowLeV(k, m, e) ==
  LET b == MinN(e, 0)
      v == IF k >= 0 THEN Lift(m, e, b) ELSE Lift(Mul(m, Pow10(-k)), e, b)
      p == IF k >= 0 THEN Lift(Pow10(k), 0, b) ELSE Lift(<<1>>, 0, b)
  IN \/ Le(p, v)
     \/ IF k >= 0 THEN Nearest(m, e, Pow10(k), 0) ELSE Nearest(m, e, <<1>>, -k)
FirstPlaceV(sp, m, e) == PowLeV(sp, m, e) /\ ~PowLeV(sp + 1, m, e)

(* bits needed for a decimal places: the least f with 10^a <= 2^f             *)
IsPlaceBits(f, a) == /\ Le(Pow10(a), Shl(<<1>>, f))
                     /\ f > 0 => Lt(Shl(<<1>>, f - 1), Pow10(a))

(* clearing the low er bits of m                                              *)
Erased(m, em, er) == /\ Le(em, m) /\ Pow2Divides(em, er)
                     /\ Lt(Sub(m, em), Shl(<<1>>, er))
(* d is what rounding up m*2^e at place a gives: d - 1 < m*2^e*10^a <= d       *)
RoundsUpTo(m, e, a, d) ==
  LET v == ScaledV(m, e, a)
      x == ScaledD(d, e)
  IN Le(v, x) /\ Lt(x, Add(v, ScaledD(<<1>>, e)))

(* the least d with m*2^e*10^a <= d                                           *)
RoundedUp(m, e, a) ==
  IF e >= 0 THEN Shl(Mul(m, Pow10(a)), e)
  ELSE LET x == Mul(m, Pow10(a)) IN IF Pow2Divides(x, 0 - e) THEN Shr(x, 0 - e) ELSE Add(Shr(x, 0 - e), <<1>>)
=============================================================================
