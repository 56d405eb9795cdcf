-------------------------------- MODULE MCElf -------------------------------
(* The erasing theorem on small floats, exhaustively: for every float with   *)
(* a P-bit mantissa that is nearest to a decimal d/10^a, clearing the bits   *)
(* below 2^-F(a) and rounding up at place a recovers d, provided something   *)
(* was cleared and at least G guard bits go.                                 *)
EXTENDS Integers, TLC
CONSTANTS P, Depth, AMax, G
VARIABLES m, x, a, done                  \* the value is m / 2^x
vars == <<m, x, a, done>>
F(n) == <<0, 4, 7, 10, 14, 17>>[n + 1]
Lo == 2 ^ (P - 1)
Init == m = Lo /\ x = 0 /\ a = 0 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ m' \in Lo..(2 * Lo - 1) /\ x' \in 0..Depth /\ a' \in 0..AMax
Spec == Init /\ [][Next]_vars
(* everything in units of 2^-x                                               *)
S == 2 ^ x
T == 10 ^ a
(* d nearest to v*10^a; is v the float nearest to d/10^a?                    *)
D == (2 * m * T + S) \div (2 * S)
Diff == IF m * T > D * S THEN m * T - D * S ELSE D * S - m * T
NearestOK == IF m = Lo /\ D * S < m * T THEN 4 * Diff <= T ELSE 2 * Diff <= T
Er == x - F(a)                           \* bits below 2^-F(a)
Vp == (m \div 2 ^ Er) * 2 ^ Er
Ceil == (Vp * T + S - 1) \div S
Erases == done /\ Er > G /\ Er < P /\ D > 0 /\ NearestOK /\ Vp # m
Recovers == Erases => Ceil = D
=============================================================================
