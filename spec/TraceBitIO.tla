----------------------------- MODULE TraceBitIO -----------------------------
(* Validates recorded executions of the bit writer and reader.               *)
EXTENDS BitIO, Json, IOUtils, TLC, Integers

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ E.st = "ok" /\ l' = l + 1

(* the observable state of the real writer after the event                   *)
WriterIs(x) == x.len = Len(w') /\ x.bytes = buf'

TInit == BitIOInit /\ l = 1
TBegin == Ev("begin") /\ w' = <<>> /\ buf' = <<>> /\ bpos' = B
          /\ src' = <<>> /\ pos' = 0 /\ res' = None
TWrite == Ev("write") /\ WriteBits(Low(E.bits, E.n)) /\ WriterIs(E)
TCursor == Ev("cursor") /\ SetCursor(E.n) /\ WriterIs(E)
TReset == Ev("reset") /\ ResetWriter /\ WriterIs(E)
TOpen == Ev("open") /\ OpenReader(E.bytes) /\ E.bytes = (IF E.own = 1 THEN buf ELSE E.bytes)
TRewind == Ev("rewind") /\ ResetReader
TRead == Ev("read") /\ Read(E.n) /\ res' = E.out
TPeek == Ev("peek") /\ Peek(E.n) /\ res' = E.out
TSkip == Ev("skip") /\ Skip(E.n)

TNext == TBegin \/ TWrite \/ TCursor \/ TReset \/ TOpen \/ TRewind \/ TRead \/ TPeek \/ TSkip
TSpec == TInit /\ [][TNext]_<<bvars, l>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
