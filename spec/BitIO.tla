------------------------------- MODULE BitIO --------------------------------
(* C13: ebi::io::bit_write::BufferedBitWriter and                            *)
(* ebi::io::bit_read::BufferedBitReader.                                     *)
(*                                                                           *)
(* The abstract writer is a bit sequence `w`; the abstract reader is a bit   *)
(* sequence `src` and a position `pos` that may run past the end after a     *)
(* skip.  `buf`/`bpos` is the byte-buffer representation the implementation  *)
(* uses (bpos = bits used in the last byte, B when a new byte is needed);    *)
(* the invariant RepOK says it always represents `w`.  B is the byte width   *)
(* (8 in the code, smaller in the exhaustive model).                         *)
EXTENDS Bits, Integers, Sequences

CONSTANT B

VARIABLES w,      \* abstract content of the writer
          buf,    \* bytes of the representation
          bpos,   \* used bits of the last byte (B if there is no room / no byte)
          src,    \* bits of the byte string under the reader
          pos,    \* read position in bits
          res     \* result of the last read: a bit sequence or None

bvars == <<w, buf, bpos, src, pos, res>>

None == <<-1>>

BitIOInit == /\ w = <<>> /\ buf = <<>> /\ bpos = B
             /\ src = <<>> /\ pos = 0 /\ res = None

----------------------------------------------------------------------------
(* Representation-level writer.                                              *)
RepWriteBit(st, b) ==
  IF st.p = B
  THEN [b |-> Append(st.b, b * 2^(B-1)), p |-> 1]
  ELSE [b |-> [st.b EXCEPT ![Len(st.b)] = @ + b * 2^(B-1-st.p)], p |-> st.p + 1]

RECURSIVE RepWrite(_, _)
RepWrite(st, bits) ==
  IF bits = <<>> THEN st ELSE RepWrite(RepWriteBit(st, Head(bits)), Tail(bits))

RepSetCursor(st, k) ==
  LET n  == CeilDiv(k, B)
      r  == k % B
      Old(i) == IF i <= Len(st.b) THEN st.b[i] ELSE 0
      bs == [i \in 1..n |-> IF i = n /\ r # 0
                            THEN (Old(i) \div 2^(B-r)) * 2^(B-r)
                            ELSE Old(i)]
  IN [b |-> bs, p |-> IF r = 0 THEN B ELSE r]

Rep == [b |-> buf, p |-> bpos]
SetRep(st) == buf' = st.b /\ bpos' = st.p

----------------------------------------------------------------------------
(* Actions.                                                                  *)
WriteBits(bits) == /\ w' = w \o bits
                   /\ SetRep(RepWrite(Rep, bits))
                   /\ UNCHANGED <<src, pos, res>>

SetCursor(k) == /\ w' = IF k <= Len(w) THEN SubSeq(w, 1, k) ELSE w \o Zeros(k - Len(w))
                /\ SetRep(RepSetCursor(Rep, k))
                /\ UNCHANGED <<src, pos, res>>

ResetWriter == /\ w' = <<>> /\ buf' = <<>> /\ bpos' = B
               /\ UNCHANGED <<src, pos, res>>

(* Open a reader over an arbitrary byte string / over the writer's bytes.    *)
OpenReader(bytes) == /\ src' = UnpackBytes(bytes, B) /\ pos' = 0 /\ res' = None
                     /\ UNCHANGED <<w, buf, bpos>>

ResetReader == pos' = 0 /\ res' = None /\ UNCHANGED <<w, buf, bpos, src>>

Avail == IF pos <= Len(src) THEN Len(src) - pos ELSE 0

Look(n) == IF n <= Avail THEN SubSeq(src, pos + 1, pos + n) ELSE None

Read(n) == /\ res' = Look(n)
           /\ pos' = IF n <= Avail THEN pos + n ELSE pos
           /\ UNCHANGED <<w, buf, bpos, src>>

Peek(n) == /\ res' = Look(n)
           /\ UNCHANGED <<w, buf, bpos, src, pos>>

Skip(n) == /\ pos' = pos + n /\ res' = None
           /\ UNCHANGED <<w, buf, bpos, src>>

----------------------------------------------------------------------------
(* Properties.                                                               *)
RepBits == IF buf = <<>> THEN 0 ELSE B * (Len(buf) - 1) + bpos

RepOK == /\ RepBits = Len(w)
         /\ buf = PackBytes(w, B)

(* Reading back what the writer holds gives the written bits and then        *)
(* fewer than B zero bits of padding, however the reads are split.           *)
RoundTrip == LET back == UnpackBytes(buf, B)
             IN /\ Len(back) - Len(w) \in 0..(B-1)
                /\ SubSeq(back, 1, Len(w)) = w
                /\ \A i \in (Len(w)+1)..Len(back) : back[i] = 0

(* A refused read does not move: action property.                            *)
RefusedStays == [][(res' = None /\ src' = src /\ pos' # pos) => (pos' > pos \/ pos' = 0)]_bvars
=============================================================================
