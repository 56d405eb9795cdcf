------------------------------ MODULE TraceTimes ------------------------------
(* Validates recorded execution times.                                       *)
EXTENDS Times, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
TInit == l = 1
TFile == Ev("file") /\ E.st = "ok"
TFresh == Ev("fresh") /\ Zero(E.segs)
TQuery == Ev("query") /\ E.st = "ok" /\ QueryOK(E.segs, E.wall, E.rd, E.wd)
(* the footer: the time of the run and its segments; wd is the time spent    *)
(* writing chunk bytes                                                       *)
TEnc == /\ Ev("enc") /\ E.st = "ok"
        /\ Total(E.segs) <= E.elapsed /\ E.elapsed <= E.wall
        /\ QueryOK(E.segs, E.wall, E.rd, E.wd)
TExpr == Ev("expr") /\ E.st = "ok" /\ AddedOK(E.before, E.segs, E.wall, E.rd)
TNext == TExpr \/ TFile \/ TFresh \/ TQuery \/ TEnc
TSpec == TInit /\ [][TNext]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
