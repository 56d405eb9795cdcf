------------------------------ MODULE TraceCsv ------------------------------
(* Validates recorded conversions.                                           *)
EXTENDS CsvConv, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
TInit == l = 1
TCsv == /\ l <= Len(Trace) /\ E.ev = "csv" /\ l' = l + 1
        /\ IF E.blocked = 0 /\ Converts(E.rows, E.limit)
           THEN E.st = "ok" /\ E.have = 1 /\ E.rest = 0 /\ E.out = Nums(Fields(E.rows))
           ELSE E.st = "failed" /\ E.have = 0
TSpec == TInit /\ [][TCsv]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
