------------------------------ MODULE MCColumns -----------------------------
(* The column-wise comparison, extreme and sum are those of the values, for  *)
(* every chunk, selection and constant within the bounds (C06, C07); and the *)
(* chunk is read back (C02).  Skip = TRUE leaves out the test of a constant  *)
(* beyond the width of the chunk: must fail.                                 *)
EXTENDS Columns, TLC
CONSTANTS N, Lo, Hi, Skip
LoV == -2
Op == {"eq", "ne", "gt", "ge", "lt", "le", "max", "min", "sum"}
VARIABLES xs, sel, op, c, j, open, yes, acc, ans, fin
vars == <<xs, sel, op, c, j, open, yes, acc, ans, fin>>
Base == Least(xs)
W == Width(xs)
D(i) == xs[i] - Base
Holds(o, x) == CASE o = "eq" -> x = c [] o = "ne" -> x # c [] o = "gt" -> x > c [] o = "ge" -> x >= c
                 [] o = "lt" -> x < c [] o = "le" -> x <= c
Cmp == {"eq", "ne", "gt", "ge", "lt", "le"}
Init == /\ xs \in UNION {[1..k -> Lo..Hi] : k \in 1..N}
        /\ sel = {} /\ op = "sum" /\ c = 0
        /\ j = -1 /\ open = {} /\ yes = {} /\ acc = 0 /\ ans = {} /\ fin = FALSE
Ask == /\ j = -1 /\ j' = 0
       /\ sel' \in SUBSET (1..Len(xs)) /\ op' \in Op
       /\ c' \in (IF op' \in Cmp THEN (Lo - 2)..(Hi + 2) ELSE {0})
       /\ open' = sel' /\ UNCHANGED <<xs, yes, acc, ans, fin>>
(* before any column: a constant outside the range of the chunk decides all   *)
DP == c - Base
Over == 2 ^ W - 1
OutOfRange == DP < 0 \/ (IF Skip THEN FALSE ELSE DP > Over)
Outside == IF DP < 0 THEN IF op \in {"gt", "ge", "ne"} THEN sel ELSE {}
           ELSE IF op \in {"lt", "le", "ne"} THEN sel ELSE {}
Start == /\ j = 0 /\ j' = 1
         /\ IF op \in Cmp /\ OutOfRange THEN ans' = Outside /\ fin' = TRUE /\ UNCHANGED <<open, yes, acc>>
            ELSE UNCHANGED <<ans, fin, open, yes, acc>>
         /\ UNCHANGED <<xs, sel, op, c>>
P(i) == Part(D(i), W, j)
PC == Part(DP, W, j)
Column ==
  /\ j >= 1 /\ j <= NCols(W) /\ ~fin /\ j' = j + 1
  /\ CASE op \in Cmp ->
            /\ open' = {i \in open : P(i) = PC}
            /\ yes' = yes \cup {i \in open : CASE op \in {"gt", "ge"} -> P(i) > PC [] op \in {"lt", "le"} -> P(i) < PC
                                               [] op = "ne" -> P(i) # PC [] OTHER -> FALSE}
            /\ UNCHANGED acc
       [] op \in {"max", "min"} ->
            /\ open' = {i \in open : \A k \in open : IF op = "max" THEN P(k) <= P(i) ELSE P(i) <= P(k)}
            /\ acc' = IF open = {} THEN acc ELSE acc + (P(CHOOSE i \in open' : TRUE)) * 2 ^ Below(W, j)
            /\ UNCHANGED yes
       [] OTHER -> /\ acc' = acc + FoldLeft(LAMBDA a, i : IF i \in sel THEN a + P(i) * 2 ^ Below(W, j) ELSE a, 0, [i \in 1..Len(xs) |-> i])
                   /\ UNCHANGED <<open, yes>>
  /\ UNCHANGED <<xs, sel, op, c, ans, fin>>
Finish ==
  /\ j = NCols(W) + 1 /\ ~fin /\ j' = j + 1 /\ fin' = TRUE
  /\ ans' = CASE op \in {"eq", "ge", "le"} -> yes \cup open
              [] op \in {"gt", "lt", "ne"} -> yes
              [] OTHER -> {}
  /\ acc' = IF op = "sum" THEN acc + Base * Cardinality(sel) ELSE acc + Base
  /\ UNCHANGED <<xs, sel, op, c, open, yes>>
Next == Ask \/ Start \/ Column \/ Finish
Spec == Init /\ [][Next]_vars
(* ---- what it has to be ---- *)
CompareOK == (op \in Cmp /\ fin) => ans = {i \in sel : Holds(op, xs[i])}
Chosen == {xs[i] : i \in sel}
ExtremeOK == (op \in {"max", "min"} /\ fin /\ sel # {}) =>
               acc \in Chosen /\ \A x \in Chosen : IF op = "max" THEN x <= acc ELSE acc <= x
SumIs == (op = "sum" /\ fin) => acc = FoldLeft(LAMBDA a, i : IF i \in sel THEN a + xs[i] ELSE a, 0, [i \in 1..Len(xs) |-> i])
ReadBack == j = -1 => \A i \in 1..Len(xs) :
              /\ FromParts([k \in 1..NCols(W) |-> Part(D(i), W, k)], W) = D(i)
              (* the first k columns miss less than one unit of column k       *)
              /\ \A k \in 1..NCols(W) : LET f == FromFirst([q \in 1..NCols(W) |-> Part(D(i), W, q)], W, k)
                                        IN f <= D(i) /\ D(i) - f < 2 ^ Below(W, k)
=============================================================================
