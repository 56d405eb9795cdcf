------------------------------- MODULE Stats -------------------------------
(* The statistics of a text file of numbers (C23).                           *)
(*                                                                           *)
(* A number is a record: t, its characters; w, its double as a sequence of   *)
(* 64 bits; v, its value in units of the file (an integer). Averages are     *)
(* compared as sums (the average times the count), deviations as their       *)
(* square times the square of the count: n * sum of squares - square of the  *)
(* sum. Both are integers, so nothing is rounded here.                       *)
EXTENDS Bits, Scale

SumSeq(s)  == FoldLeft(LAMBDA a, x : a + x, 0, s)
SumSq(s)   == FoldLeft(LAMBDA a, x : a + x * x, 0, s)
Spread(s)  == Len(s) * SumSq(s) - SumSeq(s) * SumSeq(s)
LeastOf(s) == MinOf({s[i] : i \in 1..Len(s)})
MostOf(s)  == MaxOf({s[i] : i \in 1..Len(s)})

(* the exponent field of a double less its bias                              *)
ExpOf(w, width) == NatOf(SubSeq(w, 2, width + 1)) - (2 ^ (width - 1) - 1)

(* leading and trailing zeros of the xor of each pair of neighbours          *)
Steps(ws)     == [i \in 1..(Len(ws) - 1) |-> XorW(ws[i], ws[i + 1])]
LeadSum(ws)   == SumSeq([i \in 1..(Len(ws) - 1) |-> LeadingZeros(Steps(ws)[i])])
TrailSum(ws)  == SumSeq([i \in 1..(Len(ws) - 1) |-> TrailingZeros(Steps(ws)[i])])
Distinct(ws)  == Cardinality({ws[i] : i \in 1..Len(ws)})

(* numeric order of doubles that are no NaN: sign and magnitude              *)
LessBits(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
SameNum(a, b)  == a = b \/ (IsZeroW(Tail(a)) /\ IsZeroW(Tail(b)))
LessNum(a, b)  == /\ ~SameNum(a, b)
                  /\ CASE a[1] = 1 /\ b[1] = 0 -> TRUE
                       [] a[1] = 0 /\ b[1] = 1 -> FALSE
                       [] a[1] = 0 /\ b[1] = 0 -> LessBits(Tail(a), Tail(b))
                       [] OTHER -> LessBits(Tail(b), Tail(a))
IsMost(m, ws)  == (\E i \in 1..Len(ws) : SameNum(m, ws[i])) /\ \A i \in 1..Len(ws) : ~LessNum(m, ws[i])
IsLeast(m, ws) == (\E i \in 1..Len(ws) : SameNum(m, ws[i])) /\ \A i \in 1..Len(ws) : ~LessNum(ws[i], m)
=============================================================================
