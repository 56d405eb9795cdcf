------------------------------- MODULE MCTpch -------------------------------
(* Queries 1 and 6 the way they are run: the rows arrive in batches and are  *)
(* taken apart into columns; every column is cut into chunks of the same     *)
(* number of records; query 6 filters one column, then the other under the   *)
(* records that are left, and sums up chunk by chunk what the bitmask keeps; *)
(* query 1 does so without a bitmask.  The answers are those of the rows     *)
(* (C22), for all tables, batches and chunk sizes within the bounds.  And    *)
(* the bounds for a codec that keeps values to half a hundredth are sound.   *)
(* Fresh = TRUE filters the second column without the bitmask: must fail.    *)
EXTENDS Tpch, FiniteSets, TLC
CONSTANTS N, Fresh
Rows == {1, 2399, 2400} \X {3, 10} \X {4, 5, 7, 8} \X {0, 8}
Few == {<<2399, 3, 5, 0>>, <<2400, 10, 7, 8>>, <<1, 10, 4, 8>>, <<1, 10, 7, 0>>}
VARIABLES rows, batch, rest, cols, size, st, chunk, mask, acc, q1
vars == <<rows, batch, rest, cols, size, st, chunk, mask, acc, q1>>
Init == /\ rows \in UNION {[1..n -> IF n = 1 THEN Rows ELSE Few] : n \in 1..N}
        /\ batch = 0 /\ rest = <<>> /\ cols = <<>> /\ size = 0 /\ st = "choose" /\ chunk = 0 /\ mask = {} /\ acc = 0 /\ q1 = <<>>
Choose == /\ st = "choose" /\ st' = "load" /\ batch' \in 1..N /\ size' \in 1..N /\ rest' = rows
          /\ cols' = [c \in 1..4 |-> <<>>]
          /\ UNCHANGED <<rows, chunk, mask, acc, q1>>
Load == /\ st = "load" /\ rest # <<>>
        /\ LET n == IF batch < Len(rest) THEN batch ELSE Len(rest)
           IN /\ cols' = [c \in 1..4 |-> cols[c] \o [i \in 1..n |-> rest[i][c]]]
              /\ rest' = SubSeq(rest, n + 1, Len(rest))
        /\ UNCHANGED <<rows, batch, size, st, chunk, mask, acc, q1>>
Total == Len(cols[1])
NCh == (Total + size - 1) \div size
In(c) == {i \in 1..Total : (c - 1) * size < i /\ i <= c * size}
Loaded == /\ st = "load" /\ rest = <<>> /\ st' = "q1" /\ chunk' = 1 /\ q1' = <<0, 0, 0, 0, 0>>
          /\ UNCHANGED <<rows, batch, rest, cols, size, mask, acc>>
Sum(S, f(_)) == FoldLeft(LAMBDA a, i : IF i \in S THEN a + f(i) ELSE a, 0, [i \in 1..Total |-> i])
Query1 == /\ st = "q1"
          /\ IF chunk <= NCh
             THEN /\ q1' = LET S == In(chunk)
                               f1(i) == cols[1][i]
                               f2(i) == cols[2][i]
                               f3(i) == cols[2][i] * (100 - cols[3][i])
                               f4(i) == f3(i) * (100 + cols[4][i])
                               f5(i) == cols[3][i]
                           IN <<q1[1] + Sum(S, f1), q1[2] + Sum(S, f2), q1[3] + Sum(S, f3), q1[4] + Sum(S, f4), q1[5] + Sum(S, f5)>>
                  /\ chunk' = chunk + 1 /\ UNCHANGED st
             ELSE st' = "disc" /\ chunk' = 1 /\ UNCHANGED q1
          /\ UNCHANGED <<rows, batch, rest, cols, size, mask, acc>>
FilterDisc == /\ st = "disc"
              /\ IF chunk <= NCh
                 THEN mask' = mask \cup {i \in In(chunk) : 5 <= cols[3][i] /\ cols[3][i] <= 7} /\ chunk' = chunk + 1 /\ UNCHANGED st
                 ELSE st' = "qty" /\ chunk' = 1 /\ UNCHANGED mask
              /\ UNCHANGED <<rows, batch, rest, cols, size, acc, q1>>
FilterQty == /\ st = "qty"
             /\ IF chunk <= NCh
                THEN mask' = (IF Fresh THEN mask \cup In(chunk) ELSE mask) \ {i \in In(chunk) : cols[1][i] >= 2400}
                     /\ chunk' = chunk + 1 /\ UNCHANGED st
                ELSE st' = "sum" /\ chunk' = 1 /\ UNCHANGED mask
             /\ UNCHANGED <<rows, batch, rest, cols, size, acc, q1>>
SumUp == /\ st = "sum"
         /\ IF chunk <= NCh
            THEN acc' = acc + Sum(In(chunk) \cap mask, LAMBDA i : cols[2][i] * cols[3][i]) /\ chunk' = chunk + 1 /\ UNCHANGED st
            ELSE st' = "end" /\ UNCHANGED <<acc, chunk>>
         /\ UNCHANGED <<rows, batch, rest, cols, size, mask, q1>>
Next == Choose \/ Load \/ Loaded \/ Query1 \/ FilterDisc \/ FilterQty \/ SumUp
Spec == Init /\ [][Next]_vars
(* ---- what it has to be ---- *)
End == st = "end"
Q1OK == End => Q1(rows) = <<q1[1], q1[2], q1[3], q1[4], q1[1], q1[2], q1[5], Total>>
SimpleOK == End => Q1Simple(rows) = <<q1[1], q1[2], q1[1], q1[2], q1[5], Total>>
Q6OK == End => Q6(rows) = <<acc>>
(* any value may be off by half a hundredth either way (in halves: -1, 0, 1), *)
(* the answer is rounded to the unit it is reported in                        *)
Round(a, b) == (2 * a + b) \div (2 * b)
NearOK == st = "choose" /\ Len(rows) <= 2 =>
  \A e \in [1..4 -> -1..1] :
    LET h(x, k) == IF x = 0 THEN IF e[k] < 0 THEN 0 ELSE e[k] ELSE 2 * x + e[k]
        P(r) == h(Price(r), 2)  Q(r) == h(Qty(r), 1)  D(r) == h(Disc(r), 3)  T(r) == h(Tax(r), 4)
        dp(r) == P(r) * (200 - D(r))
        ch(r) == dp(r) * (200 + T(r))
        rv(r) == P(r) * D(r)
    IN /\ Q1Near(rows, <<Round(SumBy(rows, Q), 2), Round(SumBy(rows, P), 2), Round(SumBy(rows, dp), 4), Round(SumBy(rows, ch), 8),
                         Round(SumBy(rows, Q), 2), Round(SumBy(rows, P), 2), Round(SumBy(rows, D), 2), Len(rows)>>)
       /\ Q1SimpleNear(rows, <<Round(SumBy(rows, Q), 2), Round(SumBy(rows, P), 2),
                               Round(SumBy(rows, Q), 2), Round(SumBy(rows, P), 2), Round(SumBy(rows, D), 2), Len(rows)>>)
       /\ Q6Near(rows, <<Round(SumBy(SelectSeq(rows, Wanted), rv), 4)>>)
=============================================================================
