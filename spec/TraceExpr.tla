----------------------------- MODULE TraceExpr ------------------------------
(* Validates recorded aggregations of expressions over real column files.    *)
EXTENDS EbiExpr, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, at, starts
vars == <<l, at, starts>>
E == Trace[l]
F == Trace[at]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
(* P as a value: TLC would turn a quantifier that is a conjunct of an action *)
(* into one nested step per element                                          *)
Is(P) == P = TRUE

TInit == l = 1 /\ at = 0 /\ starts = <<0>>
TCols == Ev("cols") /\ E.st = "ok" /\ at' = l /\ starts' = StartsOf(E.sizes)
Q(n) == Ev(n) /\ UNCHANGED <<at, starts>>

(* an expression of literals only is an error as soon as there is a chunk;   *)
(* literal-only subexpressions are either an error or their value            *)
AnsOK(a, st, out, sel) ==
  IF OnlyLits(a.e) THEN F.n > 0 => st = "err"
  ELSE \/ ~Plain(a.e) /\ st = "err"
       \/ st = "ok" /\ AggOK(F.cols, a.e, a.kind, sel, out)

TAgg == Q("agg") /\ Is(AnsOK(E.a, E.st, E.out, Sel(starts, -1, E.hm, E.mask)))
TMulti == /\ Q("multi")
          /\ IF \E i \in 1..Len(E.as) : ~Plain(E.as[i].e) \/ OnlyLits(E.as[i].e)
             THEN E.st = "err" \/ F.n = 0
             ELSE /\ E.st = "ok" /\ Len(E.outs) = Len(E.as)
                  /\ Is(\A i \in 1..Len(E.as) : AnsOK(E.as[i], "ok", E.outs[i], Sel(starts, -1, E.hm, E.mask)))
TChunk == Q("chunk") /\ Is(AnsOK([e |-> E.e, kind |-> "none"], E.st, E.out, Sel(starts, E.ch, E.hm, E.mask)))
TMaxIx == Q("maxix") /\ E.st = "ok" /\ E.v = MaxIx(E.e)
TNext == TMaxIx \/ TCols \/ TAgg \/ TMulti \/ TChunk
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
