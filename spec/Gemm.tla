-------------------------------- MODULE Gemm --------------------------------
(* Products of integer matrices (C12).  A call asks for                      *)
(*   C := alpha * op(A) * op(B) + beta * C                                   *)
(* with op(A) m x k, op(B) k x n and C m x n, all column-major (cuBLAS'      *)
(* convention) and densely packed.  A row-major product is the column-major  *)
(* one with the operands exchanged.                                          *)
EXTENDS Integers, Sequences

RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)

(* element (i, j), counted from 1, of a column-major matrix with leading     *)
(* dimension ld; t: the matrix is stored transposed                          *)
At(xs, ld, t, i, j) == IF t THEN xs[j + ld * (i - 1)] ELSE xs[i + ld * (j - 1)]

Product(q, a, b, c) ==
  [x \in 1..(q.m * q.n) |->
     LET i == ((x - 1) % q.m) + 1
         j == ((x - 1) \div q.m) + 1
         T(p) == At(a, IF q.ta THEN q.k ELSE q.m, q.ta, i, p) * At(b, IF q.tb THEN q.n ELSE q.k, q.tb, p, j)
     IN q.alpha * SumTo(T, q.k) + (IF q.beta = 0 THEN 0 ELSE q.beta * c[x])]

Fits(q, na, nb, nc) == /\ q.m > 0 /\ q.n > 0 /\ q.k > 0
                       /\ na = q.m * q.k /\ nb = q.k * q.n /\ nc = q.m * q.n

(* row-major product of an m x k by a k x n matrix, stated directly           *)
RowMajorProduct(m, n, k, a, b) ==
  [x \in 1..(m * n) |->
     LET r == (x - 1) \div n
         c == (x - 1) % n
         T(p) == a[r * k + p] * b[(p - 1) * n + c + 1]
     IN SumTo(T, k)]
=============================================================================
