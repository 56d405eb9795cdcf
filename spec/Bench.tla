------------------------------- MODULE Bench -------------------------------
(* The classification and the embedding experiment (C26). Values are         *)
(* integers in units of three (or three more than its shift) places; a data   *)
(* set of precision p is rounded to units of                                 *)
(* its last place before it is compressed.                                   *)
EXTENDS Scale

Pow10(n) == FoldLeft(LAMBDA a, i : 10 * a, 1, [i \in 1..n |-> i])
Abs(x) == IF x < 0 THEN -x ELSE x
(* half away from zero                                                       *)
RoundTo(v, p) ==
  IF p >= 3 THEN v * Pow10(p - 3)
  ELSE LET d == Pow10(3 - p)  m == (2 * Abs(v) + d) \div (2 * d) IN IF v < 0 THEN -m ELSE m
Rounded(line, p) == [i \in 1..Len(line) |-> RoundTo(line[i], p)]

SumOver(n, f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..n |-> i])
(* four times the squared distance, and how far it can be off if every value *)
(* x is off by less than e/2 units                                           *)
Dist4(x, t)     == 4 * SumOver(Len(t), LAMBDA i : (x[i] - t[i]) * (x[i] - t[i]))
Off4(x, t, e)   == SumOver(Len(t), LAMBDA i : 4 * Abs(x[i] - t[i]) * e + e * e)
(* the lines that can be the nearest                                         *)
MayBeNearest(xs, t, e) ==
  LET d == [i \in 1..Len(xs) |-> Dist4(xs[i], t)]
      o == [i \in 1..Len(xs) |-> Off4(xs[i], t, e)]
      most == MinOf({d[i] + o[i] : i \in 1..Len(xs)})
  IN {i \in 1..Len(xs) : d[i] - o[i] <= most}

(* tests that are, and tests that may be, given their own label              *)
Sure(xs, xl, ts, tl, e)     == Cardinality({j \in 1..Len(ts) : \A i \in MayBeNearest(xs, ts[j], e) : xl[i] = tl[j]})
Possible(xs, xl, ts, tl, e) == Cardinality({j \in 1..Len(ts) : \E i \in MayBeNearest(xs, ts[j], e) : xl[i] = tl[j]})

Quantizing == {"BUFF", "DeltaSprintz"}
(* twice the largest error of a value, in units of the last of p places, when *)
(* read with precision q (-1: with all of it)                                *)
Error2(codec, p, q) == IF codec # "BUFF" THEN 0 ELSE IF q = -1 \/ q >= p THEN 1 ELSE Pow10(p - q)

NextFreeDir(S) == MinOf(0..Cardinality(S) \ S)
=============================================================================
