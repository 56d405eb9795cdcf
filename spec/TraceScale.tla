----------------------------- MODULE TraceScale -----------------------------
(* Validates recorded precisions and scales.                                 *)
EXTENDS Scale, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
TInit == l = 1
TPlaces == Ev("places") /\ E.st = "ok" /\ E.p = Places(E.t)
(* one in a hundred numbers may be cut off; a scale is a 32-bit power of ten *)
TSet == /\ Ev("set")
        /\ LET ps == AllPlaces(E.toks)
           IN IF ps = <<>> THEN E.sst = "err" /\ E.est = "err" /\ E.ast = "err"
              ELSE /\ E.est = "ok" /\ E.exact = Exact(ps)
                   /\ E.ast = "ok" /\ E.approx = Common(ps, 100)
                   /\ IF Common(ps, 100) <= 9 THEN E.sst = "ok" /\ E.scale = Common(ps, 100) ELSE E.sst = "err"
TNext == TPlaces \/ TSet
TSpec == TInit /\ [][TNext]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
