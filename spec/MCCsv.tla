------------------------------- MODULE MCCsv -------------------------------
(* Design: a converter with an output buffer of Cap records, over an output  *)
(* that fails at a record boundary of its own choosing. Checked: the last    *)
(* buffer is written, and its failure noticed, before success is reported.   *)
EXTENDS CsvConv

CONSTANTS Cap, MaxFields, Checked

VARIABLES inp, pos, buf, disk, have, room, st
vars == <<inp, pos, buf, disk, have, room, st>>

FieldSet == {<<"num", 1>>, <<"num", 2>>, <<"empty", 0>>, <<"bad", 0>>}

Init == /\ inp \in UNION {[1..k -> FieldSet] : k \in 0..MaxFields}
        /\ room \in 0..MaxFields
        /\ pos = 1 /\ buf = <<>> /\ disk = <<>> /\ have = TRUE /\ st = "run"

Flushable == Len(disk) + Len(buf) <= room

Read == /\ st = "run" /\ pos <= Len(inp)
        /\ LET f == inp[pos]
           IN CASE f[1] = "empty" -> pos' = pos + 1 /\ UNCHANGED <<buf, disk, st>>
                [] f[1] = "bad"   -> st' = "remove" /\ UNCHANGED <<pos, buf, disk>>
                [] f[1] = "num"   ->
                     IF Len(buf) < Cap
                     THEN pos' = pos + 1 /\ buf' = Append(buf, f[2]) /\ UNCHANGED <<disk, st>>
                     ELSE IF Flushable
                     THEN disk' = disk \o buf /\ buf' = <<>> /\ UNCHANGED <<pos, st>>
                     ELSE disk' = disk \o SubSeq(buf, 1, room - Len(disk)) /\ st' = "remove" /\ UNCHANGED <<pos, buf>>
        /\ UNCHANGED <<inp, have, room>>

Finish == /\ st = "run" /\ pos > Len(inp)
          /\ disk' = disk \o SubSeq(buf, 1, IF Flushable THEN Len(buf) ELSE room - Len(disk))
          /\ st' = IF Flushable \/ ~Checked THEN "ok" ELSE "remove"
          /\ UNCHANGED <<inp, pos, buf, have, room>>

Undo   == /\ st = "remove" /\ st' = "failed" /\ have' = FALSE /\ disk' = <<>>
          /\ UNCHANGED <<inp, pos, buf, room>>

Next == Read \/ Finish \/ Undo

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == /\ st = "ok" => have /\ disk = Nums(inp) /\ ~HasBad(inp)
         /\ st = "failed" => ~have /\ ~Converts(<<inp>>, 8 * room)
Ends  == <>(st \in {"ok", "failed"})
=============================================================================
