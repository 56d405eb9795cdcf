------------------------------ MODULE EbiQuery ------------------------------
(* What queries on an ebi file mean.  A file is a sequence of records cut    *)
(* into consecutive chunks; record numbers are global and start at 0.        *)
(*                                                                           *)
(* Values appear through projections: an identity `id` (equal iff the bit    *)
(* patterns - or, for the decimal codecs, the decimals - are equal), an      *)
(* order rank `rk` (0 for NaN; data values get even ranks, so predicate      *)
(* constants between two data values get odd ones), small integers `iv` or,  *)
(* for wide ranges, integers `kv` in sixteenths of the unit as four limbs    *)
(* of base 2^16 (the last limb signed).                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

----------------------------------------------------------------------------
(* Chunks.                                                                   *)
FoldStarts(sizes) == FoldLeft(LAMBDA acc, s : Append(acc, acc[Len(acc)] + s), <<0>>, sizes)
(* the same without a fold where all chunks but the last are of one size     *)
StartsOf(sizes) ==
  LET m == Len(sizes)
  IN IF m > 0 /\ \A i \in 1..(m - 1) : sizes[i] = sizes[1]
     THEN [i \in 1..(m + 1) |-> IF i <= m THEN (i - 1) * sizes[1] ELSE (m - 1) * sizes[1] + sizes[m]]
     ELSE FoldStarts(sizes)

(* The partition a chunk option demands (C03).  A chunk holds at least one   *)
(* record, so a record count of 0 means 1.                                   *)
Most1(v) == IF v < 1 THEN 1 ELSE v
SizesOK(kind, v0, n, sizes) == LET v == Most1(v0) IN
  /\ \A i \in 1..Len(sizes) : sizes[i] > 0
  /\ StartsOf(sizes)[Len(sizes) + 1] = n
  /\ CASE kind = "full"  -> Len(sizes) = (IF n = 0 THEN 0 ELSE 1)
       [] kind = "rec"   -> \A i \in 1..Len(sizes) :
                               IF i < Len(sizes) THEN sizes[i] = v ELSE sizes[i] <= v
       [] kind = "bytes" -> TRUE   \* best effort: any positive sizes

SizesOf(kind, v0, n) ==   \* for full and rec
  LET v == Most1(v0) IN
  IF n = 0 THEN <<>>
  ELSE IF kind = "full" \/ v >= n THEN <<n>>
  ELSE [i \in 1..((n + v - 1) \div v) |-> IF i * v <= n THEN v ELSE n % v]

----------------------------------------------------------------------------
(* Selection: bitmask and chunk.                                             *)
SelIn(lo, hi, hm, mask) ==
  IF hm = 1 THEN SelectSeq(mask, LAMBDA r : lo <= r /\ r < hi)
  ELSE [i \in 1..(hi - lo) |-> lo + i - 1]

(* c = -1: whole file, otherwise a chunk index                               *)
Sel(starts, c, hm, mask) ==
  IF c = -1 THEN SelIn(0, starts[Len(starts)], hm, mask)
  ELSE SelIn(starts[c + 1], starts[c + 2], hm, mask)

----------------------------------------------------------------------------
(* Predicates over ranks.                                                    *)
EqR(r, c) == r # 0 /\ c # 0 /\ r = c
LeR(a, b) == a # 0 /\ b # 0 /\ a <= b
LtR(a, b) == a # 0 /\ b # 0 /\ a < b

Sat(p, r) ==
  CASE p.op = "eq" -> EqR(r, p.a)
    [] p.op = "ne" -> ~EqR(r, p.a)
    [] p.op = "range" ->
         /\ CASE p.ak = "none" -> TRUE [] p.ak = "incl" -> LeR(p.a, r) [] p.ak = "excl" -> LtR(p.a, r)
         /\ CASE p.bk = "none" -> TRUE [] p.bk = "incl" -> LeR(r, p.b) [] p.bk = "excl" -> LtR(r, p.b)

FilterAns(rk, sel, p) == SelectSeq(sel, LAMBDA r : Sat(p, rk[r + 1]))

Values(xs, sel) == [i \in 1..Len(sel) |-> xs[sel[i] + 1]]

----------------------------------------------------------------------------
(* Aggregates.                                                               *)
Base == 65536
Norm(d) ==
  LET c1 == d[1] \div Base
      d2 == d[2] + c1
      c2 == d2 \div Base
      d3 == d[3] + c2
      c3 == d3 \div Base
  IN <<d[1] % Base, d2 % Base, d3 % Base, d[4] + c3>>

SumLimbs(kv, sel) ==
  Norm([j \in 1..4 |-> FoldLeft(LAMBDA a, r : a + kv[r + 1][j], 0, sel)])

(* |x - y| <= t for limb numbers                                             *)
Near(x, y, t) ==
  LET d == Norm([j \in 1..4 |-> x[j] - y[j]])
  IN \/ d[4] = 0 /\ d[3] = 0 /\ d[2] < 32768 /\ d[2] * Base + d[1] <= t
     \/ d[4] = -1 /\ d[3] = Base - 1 /\ d[2] >= 32768 /\ (d[2] - Base) * Base + d[1] >= -t

(* Allowed error of a sum over m records, in sixteenths of the unit; dy says *)
(* that the codec holds the values exactly.                                  *)
SumTol(cls, dy, m) ==
  CASE cls = "exact" -> 0
    [] cls = "dec"   -> 4            \* rounding of quotients
    [] cls = "buff"  -> IF dy = 1 THEN 1 ELSE 8 * m + 1    \* half a unit per record

(* <<-1, 1, 0, 0>>, <<-1, 2, 0, 0>>, <<-1, 3, 0, 0>>: infinity, minus        *)
(* infinity, NaN; the sum of opposite infinities, or with a NaN, is NaN      *)
Special(k) == k[1] = -1
SpecialSum(ks) == IF ks = {1} THEN 1 ELSE IF ks = {2} THEN 2 ELSE 3
SumOK(cls, dy, kv, sel, s) ==
  LET sp == {kv[sel[i] + 1][2] : i \in {j \in 1..Len(sel) : Special(kv[sel[j] + 1])}}
  IN IF sp # {} THEN s = <<-1, SpecialSum(sp), 0, 0>>
     ELSE ~Special(s) /\ Near(s, SumLimbs(kv, sel), SumTol(cls, dy, Len(sel)))

(* (id, rank) is an extreme value of a selection that has an ordered value   *)
MinOK(ids, rk, sel, id) ==
  LET s == SelectSeq(sel, LAMBDA r : rk[r + 1] # 0)
  IN s = <<>> \/ LET m == FoldLeft(LAMBDA a, r : IF rk[r + 1] < a THEN rk[r + 1] ELSE a, rk[s[1] + 1], s)
                 IN \E i \in 1..Len(s) : rk[s[i] + 1] = m /\ ids[s[i] + 1] = id
MaxOK(ids, rk, sel, id) ==
  LET s == SelectSeq(sel, LAMBDA r : rk[r + 1] # 0)
  IN s = <<>> \/ LET m == FoldLeft(LAMBDA a, r : IF rk[r + 1] > a THEN rk[r + 1] ELSE a, rk[s[1] + 1], s)
                 IN \E i \in 1..Len(s) : rk[s[i] + 1] = m /\ ids[s[i] + 1] = id

----------------------------------------------------------------------------
(* Vectors and matrices over small integers.                                 *)
SumTo(m, F(_)) == FoldLeft(LAMBDA a, i : a + F(i), 0, [i \in 1..m |-> i])

(* Far stands for a record so far away that the square of its distance to    *)
(* anything is infinite (an infinity, or 1e200); Infinity is that distance   *)
Far == 1000000
Infinity == 2000000000
DistSq(iv, off, t) ==       \* squared distance of t to the vector at offset off
  LET m == IF Len(iv) - off < Len(t) THEN Len(iv) - off ELSE Len(t)
  IN IF \E i \in 1..m : iv[off + i] = Far THEN Infinity
     ELSE SumTo(m, LAMBDA i : (iv[off + i] - t[i]) * (iv[off + i] - t[i]))

Dot(iv, off, t) ==
  LET m == IF Len(iv) - off < Len(t) THEN Len(iv) - off ELSE Len(t)
  IN SumTo(m, LAMBDA i : iv[off + i] * t[i])

(* idx = -1: no vector.  ties may be broken either way                       *)
KnnOK(iv, t, idx, dist) ==
  LET m == Len(t)
      nv == Len(iv) \div m
  IN IF nv = 0 THEN idx = -1
     ELSE /\ idx \in 0..(nv - 1)
          /\ dist = DistSq(iv, idx * m, t)
          /\ \A j \in 0..(nv - 1) : dist <= DistSq(iv, j * m, t)

MatShapeOK(n, tlen, tr, tc, dr, dc) ==
  /\ dc = tr /\ dr * dc > 0 /\ tr * tc = tlen /\ n % (dr * dc) = 0

(* data: batch of row-major dr x dc matrices, target: column-major dc x tc   *)
MatmulAns(iv, t, tr, tc, dr, dc) ==
  LET nrows == Len(iv) \div dc
  IN [k \in 1..(nrows * tc) |->
        LET r == (k - 1) \div tc
            c == (k - 1) % tc
        IN SumTo(dc, LAMBDA i : iv[r * dc + i] * t[c * tr + i])]
=============================================================================
