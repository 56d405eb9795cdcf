------------------------------ MODULE TraceEbi ------------------------------
(* Validates recorded query histories on real ebi files.  The state is the   *)
(* file: a query never changes it, and its answer is a function of the file  *)
(* and the arguments alone (C08), namely the one EbiQuery defines.           *)
EXTENDS EbiQuery, Format, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,        \* position in the trace
          at,       \* position of the event that wrote the current file
          starts,   \* logical offsets of the chunks of that file, then its record count
          prec      \* requested precision, -1 if none
vars == <<l, at, starts, prec>>
E == Trace[l]
F == Trace[at]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1

(* P as a value: TLC would turn a quantifier that is a conjunct of an action *)
(* into one nested step per element                                          *)
Is(P) == P = TRUE

TInit == l = 1 /\ at = 0 /\ starts = <<0>> /\ prec = -1

(* Encoding never fails on data of the codec's domain; the chunks partition  *)
(* the records as the chunk option demands.                                  *)
TFile == /\ Ev("file") /\ E.st = "ok"
         /\ Is(SizesOK(E.okind, E.oval, E.n, E.sizes))
         /\ at' = l /\ starts' = StartsOf(E.sizes) /\ prec' = -1

(* the input or output of this operation failed                              *)
Hit == "hit" \in DOMAIN E /\ E.hit = 1

(* an open chunk reader knows which chunk it reads                            *)
TOpen == /\ Ev("open") /\ ~Hit /\ E.st = "ok" /\ prec' = -1 /\ UNCHANGED <<at, starts>>
         /\ IF "of" \in DOMAIN E
            THEN E.of = <<starts[E.ch + 2] - starts[E.ch + 1], E.ch, IF E.ch + 2 = Len(starts) THEN 1 ELSE 0, starts[E.ch + 1], starts[Len(starts)]>>
            ELSE TRUE
Q(n) == Ev(n) /\ ~Hit /\ UNCHANGED <<at, starts, prec>>
S == Sel(starts, E.ch, E.hm, E.mask)

TPrec == Ev("prec") /\ prec' = E.q /\ UNCHANGED <<at, starts>>

(* with a reduced precision q the value may differ by less than half a unit  *)
(* of the q-th place; p is the place of the unit; values in sixteenths       *)
PrecOK(sel, out) ==
  LET q == IF prec < F.p THEN prec ELSE F.p
      t == 8 * 10^(F.p - q)
  IN /\ Len(out) = Len(sel)
     /\ \A i \in 1..Len(sel) : Near(out[i], F.kv[sel[i] + 1], t)

MatIs(sel) == IF prec = -1 \/ F.cls # "buff" THEN E.out = Values(F.ids, sel)
              ELSE PrecOK(sel, E.out16)

TMat  == Q("mat") /\ E.st = "ok" /\ Is(MatIs(S))
TFil  == Q("filter") /\ E.st = "ok" /\ E.out = FilterAns(F.rk, S, E.p)
TFMat == Q("fmat") /\ E.st = "ok" /\ Is(MatIs(FilterAns(F.rk, S, E.p)))
TSum  == Q("sum") /\ E.st = "ok" /\ Is(SumOK(F.cls, F.dy, F.kv, S, E.s))
TMin  == Q("min") /\ E.st = "ok" /\ Is(MinOK(F.ids, F.rk, S, E.id))
TMax  == Q("max") /\ E.st = "ok" /\ Is(MaxOK(F.ids, F.rk, S, E.id))
(* the first k values a chunk's iterator delivers                            *)
TIter == /\ Q("iter") /\ E.st = "ok"
         /\ LET sel == Sel(starts, E.ch, 0, <<>>)
                k == IF E.k < Len(sel) THEN E.k ELSE Len(sel)
            IN Is(MatIs(SubSeq(sel, 1, k)))
TDist == Q("dist") /\ E.st = "ok" /\ LET c == Values(F.iv, Sel(starts, E.ch, 0, <<>>)) IN E.d = DistSq(c, E.off, E.t)
TDot  == Q("dot") /\ E.st = "ok" /\ LET c == Values(F.iv, Sel(starts, E.ch, 0, <<>>)) IN E.d = Dot(c, E.off, E.t)
TKnn  == /\ Q("knn")
         /\ IF E.t = <<>> THEN E.st = "err" ELSE E.st = "ok" /\ Is(KnnOK(F.iv, E.t, E.idx, E.d))
TMul  == /\ Q("matmul")
         /\ IF MatShapeOK(F.n, Len(E.t), E.tr, E.tc, E.dr, E.dc)
            THEN E.st = "ok" /\ E.out = MatmulAns(F.iv, E.t, E.tr, E.tc, E.dr, E.dc)
            ELSE E.st = "err"

(* C18: an operation whose input or output failed reports an error; what it  *)
(* has written by then is the beginning of its answer.  tail: the values     *)
(* whose first bytes an incomplete last record consists of (0: any).         *)
OutPrefix(exp) ==
  LET n == Len(E.out)
  IN /\ n <= Len(exp) /\ \A i \in 1..n : E.out[i] = exp[i]
     /\ E.part > 0 => n < Len(exp) /\ \E i \in 1..Len(E.tail) : E.tail[i] \in {0, exp[n + 1]}
TFault == /\ l <= Len(Trace) /\ Hit /\ l' = l + 1 /\ UNCHANGED <<at, starts, prec>>
          /\ E.ev \in {"open", "mat", "fmat", "filter", "sum", "min", "max", "knn", "matmul"}
          /\ E.st = "err"
          /\ E.ev = "mat" => Is(OutPrefix(Values(F.ids, S)))
          /\ E.ev = "fmat" => Is(OutPrefix(Values(F.ids, FilterAns(F.rk, S, E.p))))

(* The bytes of the file are laid out as specified and describe its chunks;  *)
(* the decoder reports what the bytes say.                                   *)
TMeta == /\ Q("meta") /\ E.st = "ok"
         /\ Is(Finished(E.b, F.sizes))
         /\ LET h == HeaderOf(E.b)
            IN /\ h.id = CodecId[F.codec] /\ h.kind = KindId[F.okind]
               /\ h.value = (IF F.okind = "full" THEN LE(0, 8) ELSE F.ovb)
               /\ FooterOf(E.b).cfg = Cat(E.cfgv)
         /\ E.r.sane = 1 /\ Is(ReportOK(E.b, E.r))

----------------------------------------------------------------------------
(* C04: the same records delivered piecemeal.                                *)
TDeliv == /\ Q("delivered")
          /\ IF E.fails = 1 THEN E.st = "err"
             ELSE /\ E.st = "ok"
                  /\ F.n = E.total \div 8
                  /\ E.sizes = F.sizes
                  /\ E.out = F.ids

(* C05: what may be found on the output.                                     *)
Complete(i) == i.st = "ok" /\ i.n = F.n /\ i.out = F.ids
Rejected(i) == i.st = "err"
TEnd  == Q("end") /\ E.enc = "ok" /\ Complete(E.img)
TWFail == /\ Q("wfail")
          /\ IF E.failed = 1 THEN E.enc = "err" ELSE E.enc = "ok"
          /\ E.enc = "ok" => Complete(E.img)
          /\ Complete(E.img) \/ Rejected(E.img)
TImages == /\ Q("images")
           /\ Is(\A k \in 1..Len(E.imgs) :
                LET i == E.imgs[k]
                IN CASE E.how = "crash" -> Complete(i) \/ Rejected(i)
                     [] E.how \in {"prefix", "magic"} -> Rejected(i)
                     [] E.how = "read" -> IF i.hit = 1 THEN Rejected(i) ELSE Complete(i))

TNext == TFault \/ TDeliv \/ TEnd \/ TWFail \/ TImages \/ TFile \/ TMeta \/ TOpen \/ TPrec \/ TMat \/ TFil \/ TFMat \/ TSum \/ TMin \/ TMax
         \/ TIter \/ TDist \/ TDot \/ TKnn \/ TMul
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
