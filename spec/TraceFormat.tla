---------------------------- MODULE TraceFormat ----------------------------
(* Validates serialization against the layout (C16): every number written is *)
(* found at its place in the bytes and is read back unchanged.               *)
EXTENDS Format, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
R == E.r
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
(* P as a value: TLC would turn a quantifier that is a conjunct of an action *)
(* into one nested step per element                                          *)
Is(P) == P = TRUE

TInit == l = 1

(* a codec configuration: size byte, then the fields                         *)
FieldsOK(id, fields) == [i \in 1..Len(fields) |-> Len(fields[i])] = CfgWidths(id)
HasScale(id) == id \in {2, 8}
TCfg == /\ Ev("cfg") /\ E.st = "ok"
        /\ LET id == CodecId[E.codec]
           IN /\ FieldsOK(id, E.fields)
              /\ R.id = id
              /\ R.b = <<CfgLen(id)>> \o Cat(E.fields)
              /\ R.size = Len(R.b)
              /\ R.back = R.b /\ R.same = 1
              /\ IF HasScale(id)
                 THEN LET s == E.fields[Len(E.fields)] IN R.scale = s /\ R.backscale = s
                 ELSE R.scale = <<>> /\ R.backscale = <<>>

THeader == /\ Ev("header") /\ E.st = "ok"
           /\ R.b = HeaderBytes(0, CodecId[E.codec], E.kind, E.value, E.foff, E.ver)
           /\ R.magic = Magic /\ R.ft = 0 /\ R.id = CodecId[E.codec] /\ R.kind = E.kind
           /\ R.value = E.value /\ R.foff = E.foff /\ R.ver = E.ver

TStruct == /\ Ev("struct") /\ E.st = "ok"
           /\ R.b0 = E.x \o E.y /\ R.back0 = <<E.x, E.y>>
           /\ R.bc = E.x \o E.y /\ R.backc = <<E.x, E.y>>
           /\ R.b3 = E.el \o Cat(E.segs) \o E.crc
           /\ R.back3 = E.segs /\ R.el3 = E.el /\ R.crc3 = E.crc

(* a file written piece by piece with given segment times                    *)
TWritten == /\ Ev("written") /\ E.st = "ok"
            /\ Is(Parseable(E.b))
            /\ LET h == HeaderOf(E.b)
                   t == FooterOf(E.b)
               IN /\ h.id = CodecId[E.codec] /\ h.kind = E.kind /\ h.value = E.value
                  /\ t.nrec = LE(E.n, 8) /\ t.cfg = Cat(E.fields) /\ t.segs = E.segs
                  /\ FOff(E.b) + t.len = Len(E.b)
            /\ R.sane = 1 /\ Is(ReportOK(E.b, R))

(* arbitrary bytes: read back as laid out, or rejected                       *)
TCrafted == /\ Ev("crafted")
            /\ Is(IF Parseable(E.b) THEN E.st = "ok" /\ ReportOK(E.b, R) ELSE E.st = "err")

TNext == TCfg \/ THeader \/ TStruct \/ TWritten \/ TCrafted
TSpec == TInit /\ [][TNext]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
