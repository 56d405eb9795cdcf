------------------------------ MODULE MCBitIO -------------------------------
(* Exhaustive model of BitIO with a small byte width.                        *)
EXTENDS BitIO, TLC
CONSTANTS MaxBits, MaxRun

SeqsUpTo(n) == UNION {[1..k -> Bit] : k \in 0..n}

Next == \/ \E b \in SeqsUpTo(MaxRun) : Len(w) + Len(b) <= MaxBits /\ WriteBits(b)
        \/ \E k \in 0..MaxBits : SetCursor(k)
        \/ ResetWriter
        \/ OpenReader(buf)
        \/ ResetReader
        \/ \E n \in 1..(MaxRun + 1) : Read(n) \/ Peek(n) \/ (pos + n <= MaxBits + 3 /\ Skip(n))

Spec == BitIOInit /\ [][Next]_bvars

(* What was read is what was written, in order, when the reader is over the  *)
(* writer's bytes: every delivered result is the slice just before pos.      *)
ReadIsSlice == (res # None /\ pos <= Len(src) /\ Len(res) <= pos) =>
                 (SubSeq(src, pos - Len(res) + 1, pos) = res \/ res = Look(Len(res)))
View == <<w, buf, bpos, src, pos>>
=============================================================================
