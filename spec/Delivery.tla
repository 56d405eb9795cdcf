------------------------------ MODULE Delivery ------------------------------
(* How an encoder takes its input from a reader that may deliver the bytes   *)
(* in any pieces, be interrupted, or fail (C04).  Bytes are counted; the     *)
(* current chunk is filled up to cap records (0: no limit) before it is      *)
(* written.                                                                  *)
EXTENDS EbiQuery, TLC

CONSTANTS Totals,    \* input sizes in bytes
          Caps,      \* records per chunk; 0: one chunk
          Pieces,    \* piece sizes the reader may choose
          Free       \* number of free choices; then the rest comes in one piece

VARIABLES total, cap, pos, buf, chunks, st, sched
vars == <<total, cap, pos, buf, chunks, st, sched>>

Want == IF cap = 0 THEN total + 32 ELSE 8 * cap - buf
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ total \in Totals /\ cap \in Caps
        /\ pos = 0 /\ buf = 0 /\ chunks = <<>> /\ st = "reading" /\ sched = <<>>

(* one successful read of at most k bytes                                    *)
Deliver(k) ==
  /\ pos < total
  /\ LET n == Min2(k, Min2(Want, total - pos))
     IN /\ pos' = pos + n
        /\ IF cap # 0 /\ buf + n = 8 * cap
           THEN buf' = 0 /\ chunks' = Append(chunks, cap)
           ELSE buf' = buf + n /\ UNCHANGED chunks
  /\ UNCHANGED st

Interrupted == UNCHANGED <<pos, buf, chunks, st>>
Failed == st' = "failed" /\ UNCHANGED <<pos, buf, chunks>>
Eof == /\ pos = total
       /\ chunks' = IF buf \div 8 > 0 THEN Append(chunks, buf \div 8) ELSE chunks
       /\ buf' = 0 /\ st' = "done" /\ UNCHANGED pos

Choice(e, A) == Len(sched) < Free /\ A /\ sched' = Append(sched, e)
Next == /\ st = "reading"
        /\ \/ \E k \in Pieces : Choice(k, Deliver(k))
           \/ Choice(-1, Interrupted)
           \/ Choice(-2, Failed)
           \/ Len(sched) = Free /\ Deliver(total) /\ UNCHANGED sched
           \/ Eof /\ UNCHANGED sched
        /\ UNCHANGED <<total, cap>>
Spec == Init /\ [][Next]_vars

(* The chunks never depend on the schedule.                                  *)
Final == SizesOf(IF cap = 0 THEN "full" ELSE "rec", cap, total \div 8)
ChunksOK == /\ st = "done" => chunks = Final
            /\ cap # 0 => IsPrefix(chunks, Final)
(* Nothing read is lost: what is not yet in a chunk is in the buffer.        *)
Conserved == st = "reading" =>
  pos = 8 * FoldLeft(LAMBDA a, s : a + s, 0, chunks) + buf

(* Prints each schedule once, for replay into the encoder.                   *)
Emit == st \in {"done", "failed"} =>
  PrintT("SCN {\"total\":" \o ToString(total) \o ",\"cap\":" \o ToString(cap) \o ",\"sched\":["
    \o FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ",") \o ToString(sched[i]), "", [i \in 1..Len(sched) |-> i])
    \o "]}")
=============================================================================
