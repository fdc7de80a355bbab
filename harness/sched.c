// Imposes a schedule on two threads that call the library. It is compiled with -fsanitize=thread
// but linked with the functions below, which are called at every access to memory that is not
// local to the function, and calls of other libraries go through stubs made by vlib/build.py.
// A thread whose budget of such points is used up hands over to the other one.
#include <pthread.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <time.h>

static __thread int me = -1;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static volatile int turn, over[2], ready[2], loose;
static volatile uint64_t count[2];
static uint64_t left, budget[256];
static unsigned used, have;

// before any of the threads begins: blocks after which to switch, in turn; none: no more switches
void sched_plan(const uint64_t *b, unsigned n, int first) {
  have = n > 256 ? 256 : n; used = 0;
  for(unsigned i=0;i<have;i++) budget[i] = b[i];
  turn = first; loose = 0;
  over[0] = over[1] = ready[0] = ready[1] = 0; count[0] = count[1] = 0;
  left = have ? budget[used++] : UINT64_MAX;
}
uint64_t sched_count(int t) { return count[t]; }
int sched_loose(void) { return loose; }
unsigned sched_used(void) { return used; }

// until it is this thread's turn; a thread that holds the turn but does not get on (it waits for
// something the other one has) loses control over the schedule
static void await(void) {
  uint64_t seen = count[1-me]; int idle = 0;
  while(turn != me && !over[1-me] && !loose) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    ts.tv_nsec += 50000000;
    if(ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
    pthread_cond_timedwait(&cv, &mu, &ts);
    if(count[1-me] != seen || !ready[1-me]) { seen = count[1-me]; idle = 0; }
    else if(++idle > 40) { loose = 1; pthread_cond_broadcast(&cv); }
  }
}
void sched_absent(int t) { over[t] = 1; }
void sched_begin(int t) {
  pthread_mutex_lock(&mu);
  me = t; ready[t] = 1;
  pthread_cond_broadcast(&cv);
  await();
  pthread_mutex_unlock(&mu);
}
void sched_end(void) {
  pthread_mutex_lock(&mu);
  over[me] = 1;
  if(!over[1-me]) { turn = 1-me; left = UINT64_MAX; }
  pthread_cond_broadcast(&cv);
  pthread_mutex_unlock(&mu);
  me = -1;
}
// the places in the code that were passed, with one of the times each
static struct { void *at; uint64_t times, pick; } site[1<<14];
static int watch;
static uint64_t rnd;
void sched_watch(uint64_t seed) { watch = 1; rnd = seed | 1; memset(site, 0, sizeof site); }
unsigned sched_sites(uint64_t *out, unsigned max) {
  unsigned n = 0;
  for(unsigned i=0;i<1<<14 && n<max;i++) if(site[i].at) out[n++] = site[i].pick;
  return n;
}
static void note(void *at) {
  unsigned h = (unsigned) (((uintptr_t) at * 0x9E3779B97F4A7C15ull) >> 50), tries = 0;
  while(site[h].at && site[h].at != at) { h = (h+1) & ((1<<14)-1); if(++tries > 64) return; }
  site[h].at = at;
  rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
  if(rnd % ++site[h].times == 0) site[h].pick = count[me];
}
void sched_point(void *at) {
  if(me < 0) return;
  count[me]++;
  if(watch) note(at);
  if(loose || over[1-me] || left == UINT64_MAX || --left > 0) return;
  pthread_mutex_lock(&mu);
  turn = 1-me;
  left = used < have ? budget[used++] : UINT64_MAX;
  pthread_cond_broadcast(&cv);
  await();
  pthread_mutex_unlock(&mu);
}

#define P(n) void __tsan_##n(void *p) { (void) p; sched_point(__builtin_return_address(0)); }
#define Q(n) P(n##1) P(n##2) P(n##4) P(n##8) P(n##16)
Q(read) Q(write) Q(unaligned_read) Q(unaligned_write) Q(volatile_read) Q(volatile_write) Q(unaligned_volatile_read) Q(unaligned_volatile_write)
void __tsan_read_range(void *p, unsigned long n) { (void) p; (void) n; sched_point(__builtin_return_address(0)); }
void __tsan_write_range(void *p, unsigned long n) { (void) p; (void) n; sched_point(__builtin_return_address(0)); }
void __tsan_vptr_update(void **p, void *q) { (void) p; (void) q; }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
// atomic accesses keep their meaning
#define A(bits, t) \
  t __tsan_atomic##bits##_load(const volatile t *p, int o) { (void) o; sched_point(__builtin_return_address(0)); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##bits##_store(volatile t *p, t v, int o) { (void) o; sched_point(__builtin_return_address(0)); __atomic_store_n(p, v, 5); } \
  t __tsan_atomic##bits##_exchange(volatile t *p, t v, int o) { (void) o; sched_point(__builtin_return_address(0)); return __atomic_exchange_n(p, v, 5); } \
  t __tsan_atomic##bits##_fetch_add(volatile t *p, t v, int o) { (void) o; sched_point(__builtin_return_address(0)); return __atomic_fetch_add(p, v, 5); } \
  t __tsan_atomic##bits##_fetch_sub(volatile t *p, t v, int o) { (void) o; sched_point(__builtin_return_address(0)); return __atomic_fetch_sub(p, v, 5); } \
  t __tsan_atomic##bits##_fetch_and(volatile t *p, t v, int o) { (void) o; sched_point(__builtin_return_address(0)); return __atomic_fetch_and(p, v, 5); } \
  t __tsan_atomic##bits##_fetch_or(volatile t *p, t v, int o) { (void) o; sched_point(__builtin_return_address(0)); return __atomic_fetch_or(p, v, 5); } \
  t __tsan_atomic##bits##_fetch_xor(volatile t *p, t v, int o) { (void) o; sched_point(__builtin_return_address(0)); return __atomic_fetch_xor(p, v, 5); } \
  t __tsan_atomic##bits##_fetch_nand(volatile t *p, t v, int o) { (void) o; sched_point(__builtin_return_address(0)); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile t *p, t *e, t v, int o, int f) { (void) o; (void) f; sched_point(__builtin_return_address(0)); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile t *p, t *e, t v, int o, int f) { (void) o; (void) f; sched_point(__builtin_return_address(0)); return __atomic_compare_exchange_n(p, e, v, 1, 5, 5); }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void) o; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) { (void) o; }
