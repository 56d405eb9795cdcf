----------------------------- MODULE TraceCodec -----------------------------
(* Validates files against an independent reader of the format (C17):        *)
(* files the encoder wrote hold the input, and what the decoder reads from   *)
(* any file of the format is what the file holds.                            *)
EXTENDS ChunkCodecs, Json, IOUtils, TLC
F == INSTANCE Format
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ E.st = "ok" /\ l' = l + 1
(* P as a value: TLC would turn a quantifier that is a conjunct of an action *)
(* into one nested step per element                                          *)
Is(P) == P = TRUE

TInit == l = 1
Words == [i \in 1..Len(E.ws) |-> BitsOfBytes(E.ws[i])]      \* most significant byte first
(* the file b holds the words ws                                             *)
Holds(b, ws) ==
  /\ F!Parseable(b)
  /\ F!HeaderOf(b).id = F!CodecId[E.codec]
  /\ LET t == F!FooterOf(b)
         f == F!FOff(b)
         ph(i) == IF i > t.nch THEN f ELSE F!Num(t.foots[i][1], 0, 8)
         lo(i) == IF i > t.nch THEN F!Num(t.nrec, 0, 8) ELSE F!Num(t.foots[i][2], 0, 8)
     IN /\ lo(t.nch + 1) = Len(ws)
        /\ t.nch > 0 => lo(1) = 0
        /\ \A i \in 1..t.nch :
             Matches(E.codec, F!Bytes(b, ph(i), ph(i + 1) - ph(i)), SubSeq(ws, lo(i) + 1, lo(i + 1)))
(* written: ws is the input (for BUFF: what the values decode to)             *)
TFile == (Ev("written") \/ Ev("read")) /\ LET ws == Force(Words) IN Is(Holds(E.b, ws))
TNext == TFile
TSpec == TInit /\ [][TNext]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
