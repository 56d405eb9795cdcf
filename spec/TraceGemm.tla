----------------------------- MODULE TraceGemm ------------------------------
(* Validates recorded calls on real GPU contexts (over a stand-in for the    *)
(* CUDA driver and cuBLAS) and recorded GPU product queries on files.        *)
EXTENDS Gemm, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, live, file
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Q == [m |-> E.m, n |-> E.n, k |-> E.k, alpha |-> E.alpha, beta |-> E.beta, ta |-> E.ta = 1, tb |-> E.tb = 1]

(* P as a value: TLC would turn a quantifier that is a conjunct of an action *)
(* into one nested step per element                                          *)
Is(P) == P = TRUE

TInit == l = 1 /\ live = FALSE /\ file = <<>>
(* where a call of the driver or of cuBLAS failed, the operation says so; it  *)
(* may also succeed, then with the right product. Later calls are as ever.    *)
Hit == E.hit = 1 /\ E.st = "err"
TNew == Ev("new") /\ E.st = "ok" /\ live' = TRUE /\ UNCHANGED file
(* a call that fits leaves the product of exactly its operands, any other is *)
(* refused and leaves the result buffer alone                                *)
TGemm == /\ Ev("gemm") /\ live /\ UNCHANGED <<live, file>>
         /\ IF Hit THEN TRUE ELSE IF Fits(Q, Len(E.a), Len(E.b), Len(E.c))
            THEN E.st = "ok" /\ E.r = Product(Q, E.a, E.b, E.c)
            ELSE E.st = "err" /\ E.r = E.c
(* row-major form: A m x k, B k x n, C m x n through config_matmul_row_major  *)
TRow == /\ Ev("row") /\ live /\ UNCHANGED <<live, file>>
        /\ IF Hit THEN TRUE ELSE IF Fits([m |-> E.m, n |-> E.n, k |-> E.k], Len(E.a), Len(E.b), Len(E.c))
           THEN E.st = "ok" /\ E.r = RowMajorProduct(E.m, E.n, E.k, E.a, E.b)
           ELSE E.st = "err" /\ E.r = E.c
(* a shape too large to count: refused whatever the (small) operands are      *)
THuge == Ev("huge") /\ live /\ E.st = "err" /\ UNCHANGED <<live, file>>

TFile == Ev("file") /\ E.st = "ok" /\ file' = E.xs /\ live' = FALSE
(* the product query: file = batch of row-major dr x dc matrices, target     *)
(* row-major tr x tc                                                         *)
TQuery ==
  /\ Ev("query") /\ UNCHANGED <<live, file>>
  /\ IF Hit THEN TRUE ELSE IF E.dc # E.tr \/ E.dr * E.dc = 0 \/ E.tr * E.tc # Len(E.t) \/ Len(file) % (E.dr * E.dc) # 0
     THEN E.st = "err"
     ELSE LET sz == E.dr * E.dc
              w == E.dr * E.tc
              nb == Len(file) \div sz
          IN /\ E.st = "ok"
             /\ Len(E.r) = nb * w
             /\ Is(\A i \in 1..nb :
                  SubSeq(E.r, (i - 1) * w + 1, i * w)
                    = RowMajorProduct(E.dr, E.tc, E.dc, SubSeq(file, (i - 1) * sz + 1, i * sz), E.t))
TNext == TNew \/ TGemm \/ TRow \/ THuge \/ TFile \/ TQuery
TSpec == TInit /\ [][TNext]_<<l, live, file>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
