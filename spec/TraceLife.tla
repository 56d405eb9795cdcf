----------------------------- MODULE TraceLife ------------------------------
(* Validates recorded lives of real compressor objects.                      *)
EXTENDS CompressorLife, Json, IOUtils, TLC, Integers
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ E.st = "ok" /\ l' = l + 1
Counts == E.tin = 8 * Len(held')

TInit == LInit /\ l = 1
TNew == Ev("new") /\ New /\ Counts
TCompress == Ev("compress") /\ Compress(E.xs) /\ Counts
TAppend == Ev("append") /\ Append_(E.xs) /\ Counts
TRewind == Ev("rewind") /\ Rewind(E.n, E.ok = 1) /\ Counts
TReset == Ev("reset") /\ Reset /\ Counts
(* prepare: the size announced before is the size handed out, the bytes are  *)
(* those of a fresh compressor that was given the held records at once       *)
TPrepare == /\ Ev("prepare") /\ Prepare /\ Counts
            /\ E.fxs = held /\ E.ftouched = (IF touched THEN 1 ELSE 0)
            /\ E.announced = Len(E.out)
            /\ E.out = E.fresh
TNext == TNew \/ TCompress \/ TAppend \/ TRewind \/ TReset \/ TPrepare
TSpec == TInit /\ [][TNext]_<<lvars, l>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
