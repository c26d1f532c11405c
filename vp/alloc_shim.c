/* Linked into the sanitised build of the extension with --wrap: every heap block the extension itself asks for
   is counted, can be refused (the n-th request from now), and is filled with a chosen byte. */
#include <stddef.h>
#include <string.h>

static long live, requests, fail_at = -1;
static int fill = 0xA5;

long vp_live(void) { return live; }
long vp_requests(void) { return requests; }
void vp_reset(long fail, int f) { requests = 0; fail_at = fail; fill = f; }

static int refuse(void) { return requests++ == fail_at; }
static void *got(void *p, size_t n) { if (p) { live++; memset(p, fill, n); } return p; }

#define WRAP(M, C, R, F) \
  void *__real_##M(size_t); void *__real_##C(size_t, size_t); void *__real_##R(void *, size_t); void __real_##F(void *); \
  void *__wrap_##M(size_t n) { return refuse() ? NULL : got(__real_##M(n), n); } \
  void *__wrap_##C(size_t a, size_t b) { void *p; if (refuse()) return NULL; p = __real_##C(a, b); if (p) live++; return p; } \
  void *__wrap_##R(void *p, size_t n) { void *q; if (refuse()) return NULL; q = __real_##R(p, n); if (q && !p) live++; return q; } \
  void __wrap_##F(void *p) { if (p) live--; __real_##F(p); }

WRAP(malloc, calloc, realloc, free)
WRAP(PyMem_Malloc, PyMem_Calloc, PyMem_Realloc, PyMem_Free)
WRAP(PyMem_RawMalloc, PyMem_RawCalloc, PyMem_RawRealloc, PyMem_RawFree)
WRAP(PyObject_Malloc, PyObject_Calloc, PyObject_Realloc, PyObject_Free)
