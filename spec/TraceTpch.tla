------------------------------ MODULE TraceTpch ------------------------------
(* Validates recorded answers of the TPC-H queries.                          *)
EXTENDS Tpch, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, at
E == Trace[l]
F == Trace[at]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Vals == [i \in 1..Len(E.res) |-> E.res[i][1]]
Crisp == \A i \in 1..Len(E.res) : E.res[i][2] = 1
(* the count, and only it, is an integer                                     *)
Kinds(n) == \A i \in 1..Len(E.res) : E.res[i][3] = (IF i = n THEN 1 ELSE 0)
Lossy == E.method = "BUFF"

(* P as a value: TLC would turn a quantifier that is a conjunct of an action *)
(* into one nested step per element                                          *)
Is(P) == P = TRUE

TInit == l = 1 /\ at = 0
TTables == Ev("tables") /\ E.st = "ok" /\ at' = l
TQ01 == /\ Ev("q01") /\ UNCHANGED at /\ E.stats = 1 /\ E.names = Averages /\ Kinds(8)
        /\ Is(IF Lossy THEN Q1Near(F.rows, Vals) ELSE Crisp /\ Vals = Q1(F.rows))
TQ01S == /\ Ev("q01s") /\ UNCHANGED at /\ E.stats = 1 /\ E.names = Averages /\ Kinds(6)
         /\ Is(IF Lossy THEN Q1SimpleNear(F.rows, Vals) ELSE Crisp /\ Vals = Q1Simple(F.rows))
TQ06 == /\ Ev("q06") /\ UNCHANGED at /\ E.stats = 1 /\ Kinds(0)
        /\ Is(IF Lossy THEN Q6Near(F.rows6, Vals) ELSE Crisp /\ Vals = Q6(F.rows6))
TNext == TTables \/ TQ01 \/ TQ01S \/ TQ06
TSpec == TInit /\ [][TNext]_<<l, at>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
