------------------------------- MODULE MCExpr -------------------------------
(* The engine evaluates an expression chunk by chunk, each operand being     *)
(* materialized under the bitmask, combines element-wise and folds the       *)
(* per-chunk aggregates.  This is the same as evaluating record by record    *)
(* over the whole file: for all columns, chunkings, masks and expressions    *)
(* within the bounds.                                                        *)
EXTENDS EbiExpr, TLC
CONSTANTS N
Vals == IF N = 2 THEN {-1, 3} ELSE {-1}
ELits == IF N = 2 THEN {2, -3} ELSE {-3}
VARIABLES cols, sizes, mask, e
vars == <<cols, sizes, mask, e>>

F(n) == <<n, 1>>
VSet == {F(v) : v \in Vals} \cup {Inf(1), NaN}
Masks == {SelectSeq([i \in 1..N |-> i - 1], LAMBDA r : r \in s) : s \in SUBSET (0..N-1)}
Parts == UNION {{s \in [1..k -> 1..N] : FoldLeft(LAMBDA a, x : a + x, 0, s) = N} : k \in 1..N}
Leaf == {<<"ix", 0>>, <<"ix", 1>>} \cup {<<"lit", F(x)>> : x \in ELits}
E1 == {x \in {<<o, a, b>> : o \in {"+", "-", "*"}, a \in Leaf, b \in Leaf} : ~OnlyLits(x)}
E2 == {<<"-", a, <<"ix", 1>>>> : a \in E1} \cup {<<"*", <<"lit", F(2)>>, a>> : a \in E1}
Init == /\ cols \in [1..2 -> [1..N -> VSet]]
        /\ sizes \in Parts /\ mask = <<>> /\ e = <<"ix", 0>>
Next == e = <<"ix", 0>> /\ mask' \in Masks /\ e' \in E1 \cup E2 /\ UNCHANGED <<cols, sizes>>
Spec == Init /\ [][Next]_vars

starts == StartsOf(sizes)
(* the engine's operand evaluation on one chunk                              *)
RECURSIVE Compute(_, _)
Compute(x, c) ==
  CASE x[1] = "ix" -> Values(cols[x[2] + 1], Sel(starts, c, 1, mask))
    [] OTHER ->
       CASE x[2][1] = "lit" -> LET r == Compute(x[3], c) IN [i \in 1..Len(r) |-> Apply(x[1], x[2][2], r[i])]
         [] x[3][1] = "lit" -> LET a == Compute(x[2], c) IN [i \in 1..Len(a) |-> Apply(x[1], a[i], x[3][2])]
         [] OTHER -> LET a == Compute(x[2], c) r == Compute(x[3], c) IN [i \in 1..Len(a) |-> Apply(x[1], a[i], r[i])]
Chunks == [i \in 1..Len(sizes) |-> i - 1]
ArrayOK == AggOK(cols, e, "none", mask, FoldLeft(LAMBDA a, c : a \o Compute(e, c), <<>>, Chunks))
SumOk == AggOK(cols, e, "sum", mask, <<FoldLeft(LAMBDA a, c : Add(a, SumF(Compute(e, c))), <<0, 1>>, Chunks)>>)
MinOk == AggOK(cols, e, "min", mask, <<FoldLeft(LAMBDA a, c : MinF(<<a, MinF(Compute(e, c))>>), Inf(1), Chunks)>>)
MaxOk == AggOK(cols, e, "max", mask, <<FoldLeft(LAMBDA a, c : MaxF(<<a, MaxF(Compute(e, c))>>), Inf(-1), Chunks)>>)
=============================================================================
