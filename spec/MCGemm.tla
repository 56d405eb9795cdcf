------------------------------- MODULE MCGemm -------------------------------
(* The GPU context as a design: it keeps three device buffers over the calls *)
(* and reuses one that is long enough, overwriting only its front.  Checked  *)
(* against Gemm!Product for every sequence of calls up to K.  Contents are   *)
(* different in every call, so any stale element shows.                      *)
EXTENDS Gemm, TLC
CONSTANTS K,       \* calls per context
          Dims,    \* dimensions a call may use
          Betas
VARIABLES da, db, dc,   \* device buffers (<<>>: not allocated)
          h,            \* the calls
          res           \* [got |-> , want |-> ] of the last call
vars == <<da, db, dc, h, res>>

Poison == 99991
Init == da = <<>> /\ db = <<>> /\ dc = <<>> /\ h = <<>> /\ res = [got |-> <<>>, want |-> <<>>]

(* upload xs into a buffer: reuse it when long enough, else allocate          *)
Upload(buf, xs) == IF Len(buf) >= Len(xs) THEN xs \o SubSeq(buf, Len(xs) + 1, Len(buf)) ELSE xs

Val(call, which, x) == (call * 3 + which) * 7 + x * x
Operand(which, n) == [x \in 1..n |-> Val(Len(h) + 1, which, x)]

Call(m, n, k, beta, ta, tb) ==
  LET q == [m |-> m, n |-> n, k |-> k, alpha |-> 1, beta |-> beta, ta |-> ta, tb |-> tb]
      a == Operand(0, m * k)
      b == Operand(1, k * n)
      c == Operand(2, m * n)
      cbuf == IF Len(dc) >= m * n \/ beta # 0 THEN Upload(dc, c) ELSE [x \in 1..(m * n) |-> Poison]
      r == Product(q, Upload(da, a), Upload(db, b), cbuf)
  IN /\ da' = Upload(da, a)
     /\ db' = Upload(db, b)
     /\ dc' = Upload(cbuf, r)
     /\ res' = [got |-> SubSeq(Upload(cbuf, r), 1, m * n), want |-> Product(q, a, b, c)]
     /\ h' = Append(h, <<m, n, k, beta, IF ta THEN 1 ELSE 0, IF tb THEN 1 ELSE 0>>)

Next == /\ Len(h) < K
        /\ \E m, n, k \in Dims, beta \in Betas, ta, tb \in BOOLEAN : Call(m, n, k, beta, ta, tb)
Spec == Init /\ [][Next]_vars

NoStale == res.got = res.want
(* the row-major product is the column-major one with operands exchanged      *)
RowMajor == (h # <<>> /\ h[Len(h)][4] = 0 /\ h[Len(h)][5] = 0 /\ h[Len(h)][6] = 0) =>
  LET q == h[Len(h)]
      a == [x \in 1..(q[1] * q[3]) |-> Val(Len(h), 0, x)]
      b == [x \in 1..(q[3] * q[2]) |-> Val(Len(h), 1, x)]
  IN RowMajorProduct(q[2], q[1], q[3], b, a) = res.want
=============================================================================
