/* Stand-in for the CUDA driver: one device whose memory is the host heap.
   Fresh and freed memory is poisoned, every access is bounds-checked against live allocations. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
typedef uint64_t dptr;
enum { OK = 0, INVALID = 1, NOMEM = 2, UNSUPPORTED = 801 };
struct alloc { uint64_t p; size_t n; struct alloc *next; };
static struct alloc *head;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static __thread void *cur;
static void poison(void *p, size_t n) { size_t i; uint64_t v = 0x7ff8deadbeef0000ull; for (i = 0; i + 8 <= n; i += 8) memcpy((char *)p + i, &v, 8); }
/* exported: is [p, p+n) inside a live allocation? */
int fakegpu_ok(uint64_t p, size_t n) {
  int r = 0; struct alloc *a;
  pthread_mutex_lock(&mu);
  for (a = head; a; a = a->next) if (p >= a->p && p + n <= a->p + a->n) r = 1;
  pthread_mutex_unlock(&mu);
  return r;
}
/* exported: the call after the next n allocations, copies and products fails, once */
static int fail_in = -1, failed;
void fakegpu_fail(int n) { fail_in = n; failed = 0; }
int fakegpu_failed(void) { return failed; }
int fakegpu_tick(void) { if (fail_in < 0) return 0; if (fail_in-- > 0) return 0; failed = 1; return 1; }
int cuInit(unsigned f) { return OK; }
int cuDriverGetVersion(int *v) { *v = 12090; return OK; }
int cuDeviceGet(int *d, int o) { if (o != 0) return 101; *d = 0; return OK; }
int cuDeviceGetCount(int *n) { *n = 1; return OK; }
int cuDeviceGetName(char *s, int n, int d) { snprintf(s, n, "fake"); return OK; }
int cuDeviceGetAttribute(int *v, int a, int d) { const char *e = getenv("FAKEGPU_POOLS"); *v = e ? atoi(e) : 1; return OK; }
int cuDevicePrimaryCtxRetain(void **c, int d) { *c = (void *)0x10; return OK; }
int cuDevicePrimaryCtxRelease_v2(int d) { return OK; }
int cuDevicePrimaryCtxReset_v2(int d) { return OK; }
int cuCtxGetCurrent(void **c) { *c = cur; return OK; }
int cuCtxSetCurrent(void *c) { cur = c; return OK; }
int cuCtxSynchronize(void) { return OK; }
int cuCtxGetDevice(int *d) { *d = 0; return OK; }
int cuStreamCreate(void **s, unsigned f) { *s = (void *)0x20; return OK; }
int cuStreamCreateWithPriority(void **s, unsigned f, int p) { *s = (void *)0x20; return OK; }
int cuStreamDestroy_v2(void *s) { return OK; }
int cuStreamSynchronize(void *s) { return OK; }
int cuStreamQuery(void *s) { return OK; }
int cuStreamWaitEvent(void *s, void *e, unsigned f) { return OK; }
int cuEventCreate(void **e, unsigned f) { *e = (void *)0x30; return OK; }
int cuEventRecord(void *e, void *s) { return OK; }
int cuEventQuery(void *e) { return OK; }
int cuEventSynchronize(void *e) { return OK; }
int cuEventDestroy_v2(void *e) { return OK; }
int cuEventElapsedTime(float *t, void *a, void *b) { *t = 0; return OK; }
int cuMemGetInfo_v2(size_t *f, size_t *t) { *f = *t = 1u << 30; return OK; }
int cuMemAlloc_v2(dptr *p, size_t n) {
  struct alloc *a;
  if (n == 0) return INVALID;
  if (fakegpu_tick()) return NOMEM;
  a = malloc(sizeof *a);
  a->p = (dptr)malloc(n + 64); a->n = n;
  poison((void *)a->p, n);
  pthread_mutex_lock(&mu); a->next = head; head = a; pthread_mutex_unlock(&mu);
  *p = a->p;
  return OK;
}
int cuMemFree_v2(dptr p) {
  struct alloc **a; int r = INVALID;
  pthread_mutex_lock(&mu);
  for (a = &head; *a; a = &(*a)->next) if ((*a)->p == p) { struct alloc *x = *a; *a = x->next; poison((void *)p, x->n); free((void *)p); free(x); r = OK; break; }
  pthread_mutex_unlock(&mu);
  return r;
}
int cuMemAllocAsync(dptr *p, size_t n, void *s) { return cuMemAlloc_v2(p, n); }
int cuMemFreeAsync(dptr p, void *s) { return cuMemFree_v2(p); }
int cuMemcpyHtoD_v2(dptr d, const void *s, size_t n) { if (fakegpu_tick()) return 719; if (!fakegpu_ok(d, n)) return INVALID; memmove((void *)d, s, n); return OK; }
int cuMemcpyDtoH_v2(void *d, dptr s, size_t n) { if (fakegpu_tick()) return 719; if (!fakegpu_ok(s, n)) return INVALID; memmove(d, (void *)s, n); return OK; }
int cuMemcpyDtoD_v2(dptr d, dptr s, size_t n) { if (fakegpu_tick()) return 719; if (!fakegpu_ok(s, n) || !fakegpu_ok(d, n)) return INVALID; memmove((void *)d, (void *)s, n); return OK; }
int cuMemcpyHtoDAsync_v2(dptr d, const void *s, size_t n, void *st) { return cuMemcpyHtoD_v2(d, s, n); }
int cuMemcpyDtoHAsync_v2(void *d, dptr s, size_t n, void *st) { return cuMemcpyDtoH_v2(d, s, n); }
int cuMemcpyDtoDAsync_v2(dptr d, dptr s, size_t n, void *st) { return cuMemcpyDtoD_v2(d, s, n); }
int cuMemsetD8_v2(dptr d, unsigned char v, size_t n) { if (!fakegpu_ok(d, n)) return INVALID; memset((void *)d, v, n); return OK; }
int cuMemsetD8Async(dptr d, unsigned char v, size_t n, void *s) { return cuMemsetD8_v2(d, v, n); }
int cuGetErrorName(int e, const char **s) { *s = "FAKE_ERROR"; return OK; }
int cuGetErrorString(int e, const char **s) { *s = "fake error"; return OK; }
#define STUB(n) int n(void) { fprintf(stderr, "fakegpu: %s is not provided\n", #n); return UNSUPPORTED; }
#include "cuda_stubs.h"
