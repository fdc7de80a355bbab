// Keeps account of the memory the library allocates and locks, and lets requests fail. Linked with
// --wrap for the functions below (vlib/build.py).
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>

#define N (1u<<18)
static struct { uintptr_t p; size_t n; } live[N];
static size_t blocks, bytes;
static uint64_t allocs, locks, lock_fail;
static struct { uintptr_t a, b; } held[256];     // locked intervals, disjoint
static unsigned nheld;

static unsigned slot(uintptr_t p) { return (unsigned) ((p * 0x9E3779B97F4A7C15ull) >> 46); }
static void add(void *q, size_t n) {
  uintptr_t p = (uintptr_t) q;
  if(!p) return;
  allocs++;
  unsigned h = slot(p), i = 0;
  while(live[h].p > 1 && i++ < N) h = (h+1) & (N-1);
  if(i >= N) return;
  live[h].p = p; live[h].n = n; blocks++; bytes += n;
}
static void del(void *q) {
  uintptr_t p = (uintptr_t) q;
  if(!p) return;
  unsigned h = slot(p), i = 0;
  while(live[h].p && live[h].p != p && i++ < N) h = (h+1) & (N-1);
  if(live[h].p != p) return;                      // not ours
  bytes -= live[h].n; blocks--; live[h].p = 1;
}
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void*, size_t); void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); char *__real_strdup(const char*);
void *__real_sodium_malloc(size_t); void *__real_sodium_allocarray(size_t, size_t); void __real_sodium_free(void*);
int __real_sodium_mlock(void*, size_t); int __real_sodium_munlock(void*, size_t); int __real_mlock(const void*, size_t); int __real_munlock(const void*, size_t);

void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); add(p, a*b); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if(p || n==0) del(q); add(p, n); return p; }
void __wrap_free(void *p) { del(p); __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if(!r) add(*p, n); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); add(p, n); return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if(p) add(p, strlen(p)+1); return p; }
void *__wrap_sodium_malloc(size_t n) { void *p = __real_sodium_malloc(n); add(p, n); return p; }
void *__wrap_sodium_allocarray(size_t a, size_t b) { void *p = __real_sodium_allocarray(a, b); add(p, a*b); return p; }
void __wrap_sodium_free(void *p) { del(p); __real_sodium_free(p); }

static void unhold(uintptr_t a, uintptr_t b) {
  for(unsigned i=0;i<nheld;) {
    uintptr_t x = held[i].a, y = held[i].b;
    if(y <= a || b <= x) { i++; continue; }
    held[i] = held[--nheld];
    if(x < a && nheld < 256) { held[nheld].a = x; held[nheld++].b = a; }
    if(b < y && nheld < 256) { held[nheld].a = b; held[nheld++].b = y; }
    i = 0;
  }
}
static int hold(const void *p, size_t n) {
  if(++locks == lock_fail) { errno = ENOMEM; return -1; }
  unhold((uintptr_t) p, (uintptr_t) p + n);
  if(n && nheld < 256) { held[nheld].a = (uintptr_t) p; held[nheld++].b = (uintptr_t) p + n; }
  return 0;
}
int __wrap_sodium_mlock(void *p, size_t n) { if(hold(p, n)) return -1; __real_sodium_mlock(p, n); return 0; }
int __wrap_sodium_munlock(void *p, size_t n) { unhold((uintptr_t) p, (uintptr_t) p + n); return __real_sodium_munlock(p, n); }
int __wrap_mlock(const void *p, size_t n) { if(hold(p, n)) return -1; __real_mlock(p, n); return 0; }
int __wrap_munlock(const void *p, size_t n) { unhold((uintptr_t) p, (uintptr_t) p + n); return __real_munlock(p, n); }

size_t track_blocks(void) { return blocks; }
size_t track_bytes(void) { return bytes; }
size_t track_locked(void) { size_t s = 0; for(unsigned i=0;i<nheld;i++) s += held[i].b - held[i].a; return s; }
uint64_t track_locks(void) { return locks; }
void track_fail(uint64_t k) { locks = 0; lock_fail = k; }        // the k-th lock from now on; 0: none
void track_forget(void) { nheld = 0; }
void track_free(void *p) { __wrap_free(p); }
