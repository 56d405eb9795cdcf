------------------------------ MODULE MCScale ------------------------------
(* The choice of a precision by one pass over the precisions from the        *)
(* largest down, with a running count, is the specified one; what it gives   *)
(* up is less than one number in K. Places is checked against the value of   *)
(* the number: it is a multiple of 10^-Places.                               *)
EXTENDS Scale
CONSTANTS K, MaxLen, MaxP

VARIABLES ps, left, acc, chosen
vars == <<ps, left, acc, chosen>>

Init == /\ ps \in UNION {[1..n -> 0..MaxP] : n \in 1..MaxLen}
        /\ left = {ps[i] : i \in 1..Len(ps)} /\ acc = 0 /\ chosen = -1
Step == /\ chosen = -1 /\ left # {}
        /\ LET p == MaxOf(left)
               a == acc + Cardinality({i \in 1..Len(ps) : ps[i] = p})
           IN /\ acc' = a /\ left' = left \ {p}
              /\ chosen' = IF K * a < Len(ps) THEN -1 ELSE p
        /\ UNCHANGED ps
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Right == chosen # -1 => /\ chosen = Common(ps, K)
                        /\ K * AtLeast(ps, chosen + 1) < Len(ps)
                        /\ chosen <= Exact(ps)
Ends  == <>(chosen # -1)

(* numbers d.ff e x: the value times 10^Places is an integer                 *)
Pow(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 10 ELSE IF k = 2 THEN 100 ELSE IF k = 3 THEN 1000 ELSE 10000
Toks == {<<d>> \o f \o e : d \in {"0", "5", "7"},
           f \in {<<>>, <<".">>, <<".", "5">>, <<".", "2", "5">>, <<".", "0", "0">>},
           e \in {<<>>, <<"e", "-", "2">>, <<"E", "-", "1">>, <<"e", "1">>, <<"e", "+", "2">>, <<"E", "2">>}}
Unscaled(m) == Nat10(SelectSeq(m, LAMBDA ch : ch # "."))
ASSUME \A t \in Toks :
  LET m == Mantissa(t)  k == Places(t) + Exponent(t) - FracLen(m)
  IN k >= 0 /\ (Places(t) > 0 => k = 0) /\ Unscaled(m) * Pow(k) >= 0
=============================================================================
