--------------------------- MODULE CompressorLife ---------------------------
(* The life of one compressor object (C15).  All that matters is the records *)
(* it holds and whether it has been handed any since it was new or reset.    *)
(* Append and Rewind exist for Uncompressed and RLE only.  Prepare closes    *)
(* the chunk: afterwards only Compress and Reset are part of the protocol.   *)
EXTENDS Naturals, Sequences

VARIABLES held,      \* the records, in order
          touched,   \* compress/append was called since New or Reset
          phase      \* "open" or "prepared"
lvars == <<held, touched, phase>>

LInit == held = <<>> /\ touched = FALSE /\ phase = "open"
New == held' = <<>> /\ touched' = FALSE /\ phase' = "open"
Compress(xs) == held' = xs /\ touched' = TRUE /\ phase' = "open"
Append_(xs) == phase = "open" /\ held' = held \o xs /\ touched' = TRUE /\ UNCHANGED phase
(* taking back n records succeeds exactly if so many are held; else nothing *)
Rewind(n, ok) == /\ phase = "open"
                 /\ ok = (n <= Len(held))
                 /\ held' = IF ok THEN SubSeq(held, 1, Len(held) - n) ELSE held
                 /\ UNCHANGED <<touched, phase>>
Reset == held' = <<>> /\ touched' = FALSE /\ phase' = "open"
Prepare == phase = "open" /\ phase' = "prepared" /\ UNCHANGED <<held, touched>>

BytesIn == 8 * Len(held)
=============================================================================
