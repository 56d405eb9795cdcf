------------------------------- MODULE MCQuery ------------------------------
(* The decoder answers a query chunk by chunk: chunks other than the chosen  *)
(* one and chunks the bitmask does not touch are skipped, the others answer  *)
(* for their own records under the bitmask, and the answers are united,      *)
(* concatenated, added or folded.  After every chunk the accumulated answer  *)
(* is the one EbiQuery defines for the records up to there - for all files,  *)
(* chunkings, masks, predicates and chunk choices within the bounds (C06,    *)
(* C07, C01).                                                                *)
EXTENDS EbiQuery, TLC
CONSTANTS N,        \* records
          Ranks     \* order ranks of the values; 0 is NaN
VARIABLES rk, sizes, hm, mask, p, ch, c, bm, out, fout, sum, mn, mx
vars == <<rk, sizes, hm, mask, p, ch, c, bm, out, fout, sum, mn, mx>>
Masks == {SelectSeq([i \in 1..N |-> i - 1], LAMBDA r : r \in s) : s \in SUBSET (0..N-1)}
Parts == UNION {{s \in [1..k -> 1..N] : FoldLeft(LAMBDA a, x : a + x, 0, s) = N} : k \in 1..N}
Preds == {[op |-> "eq", a |-> 4], [op |-> "ne", a |-> 4],
          [op |-> "range", ak |-> "incl", a |-> 3, bk |-> "none", b |-> 0],
          [op |-> "range", ak |-> "excl", a |-> 2, bk |-> "incl", b |-> 4]}
PosInf == 99
NegInf == -99
Init == /\ rk \in [1..N -> Ranks] /\ sizes \in Parts
        /\ hm \in {0, 1} /\ mask \in (IF hm = 0 THEN {<<>>} ELSE Masks)
        /\ p \in Preds /\ ch \in -1..(Len(sizes) - 1)
        /\ c = 0 /\ bm = <<>> /\ out = <<>> /\ fout = <<>> /\ sum = 0 /\ mn = PosInf /\ mx = NegInf
starts == StartsOf(sizes)
(* one chunk's own answers, on its records 0..size-1 shifted by its offset    *)
Chunk == SubSeq(rk, starts[c + 1] + 1, starts[c + 2])
Local == IF hm = 0 THEN [i \in 1..Len(Chunk) |-> i - 1]
         ELSE LET s == SelectSeq(mask, LAMBDA r : starts[c + 1] <= r /\ r < starts[c + 2])
              IN [i \in 1..Len(s) |-> s[i] - starts[c + 1]]
Skipped == (ch # -1 /\ ch # c) \/ (hm = 1 /\ Local = <<>>)
Num(r) == IF r = 0 THEN 0 ELSE r
Lo2(a, b) == IF a < b THEN a ELSE b
Hi2(a, b) == IF a > b THEN a ELSE b
Step ==
  /\ c < Len(sizes) /\ c' = c + 1
  /\ IF Skipped THEN UNCHANGED <<bm, out, fout, sum, mn, mx>>
     ELSE LET hit == SelectSeq(Local, LAMBDA i : Sat(p, Chunk[i + 1]))
              ord == SelectSeq(Local, LAMBDA i : Chunk[i + 1] # 0)
          IN /\ bm' = bm \o [i \in 1..Len(hit) |-> hit[i] + starts[c + 1]]
             /\ out' = out \o [i \in 1..Len(Local) |-> Chunk[Local[i] + 1]]
             /\ fout' = fout \o [i \in 1..Len(hit) |-> Chunk[hit[i] + 1]]
             /\ sum' = sum + FoldLeft(LAMBDA a, i : a + Num(Chunk[i + 1]), 0, Local)
             /\ mn' = Lo2(mn, FoldLeft(LAMBDA a, i : Lo2(a, Chunk[i + 1]), PosInf, ord))
             /\ mx' = Hi2(mx, FoldLeft(LAMBDA a, i : Hi2(a, Chunk[i + 1]), NegInf, ord))
  /\ UNCHANGED <<rk, sizes, hm, mask, p, ch>>
Spec == Init /\ [][Step]_vars

(* the records of the answer that lie before the c-th chunk                   *)
Sofar == SelectSeq(Sel(starts, ch, hm, mask), LAMBDA r : r < starts[c + 1])
FilterOK == bm = FilterAns(rk, Sofar, p)
MatOK == out = Values(rk, Sofar)
FMatOK == fout = Values(rk, FilterAns(rk, Sofar, p))
SumIs == sum = FoldLeft(LAMBDA a, r : a + Num(rk[r + 1]), 0, Sofar)
HasOrd == \E i \in 1..Len(Sofar) : rk[Sofar[i] + 1] # 0
MinIs == IF HasOrd THEN MinOK(rk, rk, Sofar, mn) ELSE mn = PosInf
MaxIs == IF HasOrd THEN MaxOK(rk, rk, Sofar, mx) ELSE mx = NegInf
(* at the end nothing of the selection is missing                            *)
Done == c = Len(sizes) => Sofar = Sel(starts, ch, hm, mask)
(* a predicate and its negation split the selection                          *)
Split == c = Len(sizes) => LET s == Sel(starts, ch, hm, mask)
  IN Len(FilterAns(rk, s, [op |-> "eq", a |-> 4])) + Len(FilterAns(rk, s, [op |-> "ne", a |-> 4])) = Len(s)
=============================================================================
