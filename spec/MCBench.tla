------------------------------ MODULE MCBench ------------------------------
(* A search for the nearest line on values that are off by up to a quarter   *)
(* of a unit, against MayBeNearest: the scan keeps the best line so far.     *)
EXTENDS Bench
CONSTANTS Vals, Lines, Width, WithLinear
VARIABLES xs, t, err, i, best
vars == <<xs, t, err, i, best>>
Vec == [1..Width -> Vals]
Init == /\ xs \in [1..Lines -> Vec] /\ t \in Vec
        /\ err \in [1..Lines -> [1..Width -> 0..2]]
        /\ i = 1 /\ best = 0
(* in quarters of a unit                                                     *)
D(k) == SumOver(Width, LAMBDA c : (4 * (xs[k][c] - t[c]) + err[k][c] - 1) * (4 * (xs[k][c] - t[c]) + err[k][c] - 1))
Scan == /\ i <= Lines
        /\ best' = IF best = 0 THEN i ELSE IF D(i) < D(best) THEN i ELSE best
        /\ i' = i + 1 /\ UNCHANGED <<xs, t, err>>
Spec == Init /\ [][Scan]_vars
Cand == IF WithLinear THEN MayBeNearest(xs, t, 1)
        ELSE {k \in 1..Lines : \A j \in 1..Lines : Dist4(xs[k], t) - Width <= Dist4(xs[j], t) + Width}
Found == i = Lines + 1 => best \in Cand
(* without error: exactly the nearest                                        *)
Sharp == (i = Lines + 1 /\ err = [k \in 1..Lines |-> [c \in 1..Width |-> 1]]) => best \in MayBeNearest(xs, t, 0)
=============================================================================
