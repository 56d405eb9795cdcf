/* Stand-in for cuBLAS: a double-precision gemm in column-major order, as documented. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
int fakegpu_ok(uint64_t p, size_t n);
int fakegpu_tick(void);
int cublasCreate_v2(void **h) { *h = (void *)0x40; return 0; }
int cublasDestroy_v2(void *h) { return 0; }
int cublasSetStream_v2(void *h, void *s) { return 0; }
int cublasGetStream_v2(void *h, void **s) { *s = 0; return 0; }
int cublasGetVersion_v2(void *h, int *v) { *v = 120900; return 0; }
int cublasSetPointerMode_v2(void *h, int m) { return 0; }
int cublasGetPointerMode_v2(void *h, int *m) { *m = 0; return 0; }
int cublasSetMathMode(void *h, int m) { return 0; }
static int in(const double *p, int ld, int rows, int cols) { return fakegpu_ok((uint64_t)p, 8 * ((size_t)ld * (cols - 1) + rows)); }
int cublasDgemm_v2(void *h, int ta, int tb, int m, int n, int k, const double *alpha, const double *A, int lda,
                   const double *B, int ldb, const double *beta, double *C, int ldc) {
  int i, j, p;
  if (m < 0 || n < 0 || k < 0 || lda < (ta ? k : m) || ldb < (tb ? n : k) || ldc < m || lda < 1 || ldb < 1 || ldc < 1) return 7;
  if (m == 0 || n == 0) return 0;
  if (k && (!in(A, lda, ta ? k : m, ta ? m : k) || !in(B, ldb, tb ? n : k, tb ? k : n))) return 14;
  if (!in(C, ldc, m, n)) return 14;
  if (fakegpu_tick()) return 13;
  for (j = 0; j < n; j++)
    for (i = 0; i < m; i++) {
      double s = 0;
      for (p = 0; p < k; p++) s += (ta ? A[p + (size_t)i * lda] : A[i + (size_t)p * lda]) * (tb ? B[j + (size_t)p * ldb] : B[p + (size_t)j * ldb]);
      s *= *alpha;
      if (*beta != 0) s += *beta * C[i + (size_t)j * ldc];
      C[i + (size_t)j * ldc] = s;
    }
  return 0;
}
#define STUB(n) int n(void) { fprintf(stderr, "fakegpu: %s is not provided\n", #n); return 15; }
#include "cublas_stubs.h"
