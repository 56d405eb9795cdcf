-------------------------------- MODULE Tpch --------------------------------
(* The TPC-H queries 1 and 6 over a table of rows <<quantity, price,         *)
(* discount, tax>> in hundredths (C22), in exact integers.                   *)
EXTENDS Integers, Sequences, SequencesExt

Qty(r) == r[1]  Price(r) == r[2]  Disc(r) == r[3]  Tax(r) == r[4]
SumBy(rows, f(_)) == FoldLeft(LAMBDA a, r : a + f(r), 0, rows)

DiscPrice(r) == Price(r) * (100 - Disc(r))                     \* 10^-4
Charge(r)    == DiscPrice(r) * (100 + Tax(r))                  \* 10^-6
Revenue(r)   == Price(r) * Disc(r)                             \* 10^-4
Wanted(r)    == 5 <= Disc(r) /\ Disc(r) <= 7 /\ Qty(r) < 2400

(* Query 1: sums, averages - as the sums they are quotients of - and count.  *)
Q1(rows) == << SumBy(rows, Qty), SumBy(rows, Price), SumBy(rows, DiscPrice), SumBy(rows, Charge),
               SumBy(rows, Qty), SumBy(rows, Price), SumBy(rows, Disc), Len(rows) >>
Q1Simple(rows) == << SumBy(rows, Qty), SumBy(rows, Price),
                     SumBy(rows, Qty), SumBy(rows, Price), SumBy(rows, Disc), Len(rows) >>
Averages == << "AVG(l_quantity)", "AVG(l_extendedprice)", "AVG(l_discount)" >>
Q6(rows) == << SumBy(SelectSeq(rows, Wanted), Revenue) >>

(* The same with every value known to half a hundredth, for a codec that     *)
(* keeps values to within its precision: bounds in units of one eighth       *)
(* (one, two or three uncertain factors).                                    *)
Lo(x) == IF x = 0 THEN 0 ELSE 2 * x - 1
Hi(x) == 2 * x + 1
DiscPriceLo(r) == Lo(Price(r)) * Lo(100 - Disc(r))   DiscPriceHi(r) == Hi(Price(r)) * Hi(100 - Disc(r))
ChargeLo(r)    == DiscPriceLo(r) * Lo(100 + Tax(r))  ChargeHi(r)    == DiscPriceHi(r) * Hi(100 + Tax(r))
RevenueLo(r)   == Lo(Price(r)) * Lo(Disc(r))         RevenueHi(r)   == Hi(Price(r)) * Hi(Disc(r))
Slack1(rows) == (Len(rows) + 1) \div 2 + 1
Near(x, v, s) == v - s <= x /\ x <= v + s
Within(x, lo, hi, k) == k * x >= lo - k /\ k * x <= hi + k

Q1Near(rows, x) ==
  LET e == Q1(rows)  s == Slack1(rows)
  IN /\ Len(x) = 8 /\ \A i \in {1, 2, 5, 6, 7} : Near(x[i], e[i], s)
     /\ Within(x[3], SumBy(rows, DiscPriceLo), SumBy(rows, DiscPriceHi), 4)
     /\ Within(x[4], SumBy(rows, ChargeLo), SumBy(rows, ChargeHi), 8)
     /\ x[8] = e[8]
Q1SimpleNear(rows, x) ==
  LET e == Q1Simple(rows)  s == Slack1(rows)
  IN Len(x) = 6 /\ (\A i \in 1..5 : Near(x[i], e[i], s)) /\ x[6] = e[6]
Q6Near(rows, x) ==
  LET w == SelectSeq(rows, Wanted)
  IN Len(x) = 1 /\ Within(x[1], SumBy(w, RevenueLo), SumBy(w, RevenueHi), 4)
=============================================================================
