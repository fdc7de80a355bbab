// Environment control and state access for the conformance drivers. Linked into the same shared
// object as the library sources of the tree under test; contains no protocol logic.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <sodium.h>
#include "XK.h"
#include "dkg.h"
#include "tp-dkg.h"
#include "noise_private.h"

// ---------------------------------------------------------------- clock
// of the calling thread, like the random numbers
static __thread uint64_t shim_now = 1700000000;
void shim_set_time(uint64_t t) { shim_now = t; }
time_t time(time_t *t) { if(t) *t = (time_t) shim_now; return (time_t) shim_now; }
int gettimeofday(struct timeval *tv, void *tz) { (void) tz; if(tv) { tv->tv_sec=(time_t) shim_now; tv->tv_usec=0; } return 0; }
int clock_gettime(clockid_t id, struct timespec *ts) { (void) id; if(ts) { ts->tv_sec=(time_t) shim_now; ts->tv_nsec=0; } return 0; }

// ---------------------------------------------------------------- stack
// leaves the given byte in the memory that the next call will use
__attribute__((noinline)) void shim_smear(int b) { volatile uint8_t a[200000]; for(size_t i=0;i<sizeof a;i++) a[i]=(uint8_t) b; }

// ---------------------------------------------------------------- random numbers
// a deterministic stream (ChaCha20 keyed by the seed); optionally preceded by scripted bytes
static __thread uint8_t rng_key[32];
static __thread uint64_t rng_ctr = 0;
static __thread uint8_t *script = NULL;
static __thread size_t script_len = 0, script_pos = 0;
static __thread uint64_t rng_calls = 0, rng_bytes = 0;
static const char *rng_name(void) { return "shim"; }
static void rng_buf(void *const buf, const size_t size) {
  rng_calls++; rng_bytes += size;
  uint8_t *p = buf; size_t left = size;
  while(left > 0 && script_pos < script_len) { *p++ = script[script_pos++]; left--; }
  if(left > 0) {
    uint8_t nonce[8];
    memcpy(nonce, &rng_ctr, 8); rng_ctr++;
    crypto_stream_chacha20(p, left, nonce, rng_key);
  }
}
static uint32_t rng_u32(void) { uint32_t r; rng_buf(&r, sizeof r); return r; }
static struct randombytes_implementation shim_rng = { rng_name, rng_u32, NULL, NULL, rng_buf, NULL };
void shim_rng_seed(const uint8_t seed[32]) {
  memcpy(rng_key, seed, 32); rng_ctr = 0; script_len = script_pos = 0;
  randombytes_set_implementation(&shim_rng);
  if(sodium_init() < 0) abort();
  rng_ctr = 0;      // the first initialisation draws some bytes itself
}
void shim_rng_script(const uint8_t *b, size_t len) {
  free(script); script = malloc(len ? len : 1); memcpy(script, b, len); script_len = len; script_pos = 0;
}
uint64_t shim_rng_calls(void) { return rng_calls; }
uint64_t shim_rng_bytes(void) { return rng_bytes; }
size_t shim_rng_script_left(void) { return script_len - script_pos; }

// ---------------------------------------------------------------- logging
extern FILE *log_file;
void shim_log(const char *path) { if(log_file) fclose(log_file); log_file = path ? fopen(path, "w") : NULL; }

// ---------------------------------------------------------------- tp-dkg state
// every variable sized buffer is a separate allocation of exactly the documented size, filled with
// junk beforehand as it would be on a stack
static void *junk(size_t n) { uint8_t *p = malloc(n ? n : 1); memset(p, 0xa5, n); return p; }
typedef struct { TP_DKG_TPState *s; void *b[8]; } shim_tp;
typedef struct { TP_DKG_PeerState *s; void *b[16]; int have_bufs; } shim_peer;

static void *aligned(size_t size) { void *p = NULL; if(posix_memalign(&p, 64, (size+63)&~(size_t)63)) abort(); memset(p, 0xa5, size); return p; }

shim_tp *shim_tp_new(void) { shim_tp *h = calloc(1, sizeof *h); h->s = aligned(sizeof(TP_DKG_TPState)); return h; }
shim_peer *shim_peer_new(void) { shim_peer *h = calloc(1, sizeof *h); h->s = aligned(sizeof(TP_DKG_PeerState)); return h; }

size_t shim_msg0_size(void) { return tpdkg_msg0_SIZE; }
size_t shim_msg8_size(void) { return tpdkg_msg8_SIZE; }

int shim_tp_start(shim_tp *h, uint64_t eps, uint8_t n, uint8_t t, const char *name, size_t name_len, size_t msg0_len, uint8_t *msg0) {
  return tpdkg_start_tp(h->s, eps, n, t, name, name_len, msg0_len, (TP_DKG_Message*) msg0);
}
void shim_tp_bufs(shim_tp *h, uint8_t n, uint8_t t, const uint8_t *lt_pks, size_t cheater_max) {
  h->b[0] = junk((size_t) n*t*32);
  h->b[1] = junk((size_t) n*n*2);
  h->b[2] = junk((size_t) n*n*tpdkg_msg8_SIZE);
  h->b[3] = junk(cheater_max*sizeof(TP_DKG_Cheater));
  h->b[4] = junk((size_t) n*32);
  h->b[5] = junk((size_t) n*32);
  h->b[6] = junk((size_t) n*8);
  memcpy(h->b[5], lt_pks, (size_t) n*32);
  tpdkg_tp_set_bufs(h->s, h->b[0], h->b[1], h->b[2], h->b[3], cheater_max, h->b[4], h->b[5], h->b[6]);
}
void *shim_tp_state(shim_tp *h) { return h->s; }
int shim_tp_n(shim_tp *h) { return h->s->n; }
int shim_tp_t(shim_tp *h) { return h->s->t; }
void shim_tp_sid(shim_tp *h, uint8_t *o) { memcpy(o, h->s->sessionid, sizeof h->s->sessionid); }
void shim_tp_sk(shim_tp *h, uint8_t *o) { memcpy(o, h->s->sig_sk, crypto_sign_SECRETKEYBYTES); }
size_t shim_tp_cheater_len(shim_tp *h) { return h->s->cheater_len; }
// o: peer, other_peer ; returns what tpdkg_cheater_msg returns
int shim_tp_cheater(shim_tp *h, size_t i, int *o, char *txt, size_t len) {
  TP_DKG_Cheater *c = &(*h->s->cheaters)[i];
  o[0] = c->peer; o[1] = c->other_peer; o[2] = c->step; o[3] = c->error;
  return tpdkg_cheater_msg(c, txt, len);
}
// run the report function alone on a given record
int shim_cheater_msg(int step, int error, int peer, int other, int invalid_index, char *txt, size_t len) {
  TP_DKG_Cheater c; memset(&c, 0, sizeof c);
  c.step=step; c.error=error; c.peer=(uint8_t)peer; c.other_peer=(uint8_t)other; c.invalid_index=invalid_index;
  return tpdkg_cheater_msg(&c, txt, len);
}
void shim_tp_free(shim_tp *h) { for(int i=0;i<8;i++) free(h->b[i]); free(h->s); free(h); }

int shim_peer_start(shim_peer *h, uint64_t eps, const uint8_t *lt_sk, const uint8_t *msg0) {
  return tpdkg_start_peer(h->s, eps, lt_sk, (const TP_DKG_Message*) msg0);
}
void shim_peer_bufs(shim_peer *h) {
  const size_t n = h->s->n, t = h->s->t;
  h->b[0] = junk(n*32);
  h->b[1] = junk(n*32);
  h->b[2] = junk(n*sizeof(void*));
  h->b[3] = junk(n*sizeof(void*));
  h->b[4] = junk(n*sizeof(TOPRF_Share));
  h->b[5] = junk(n*sizeof(TOPRF_Share));
  h->b[6] = junk(n*t*32);
  h->b[7] = junk(n*n*2);
  h->b[8] = junk(n);
  h->b[9] = junk(n*8);
  h->have_bufs = 1;
  tpdkg_peer_set_bufs(h->s, h->b[0], h->b[1], h->b[2], h->b[3], h->b[4], h->b[5], h->b[6], h->b[7], h->b[8], h->b[9]);
}
void *shim_peer_state(shim_peer *h) { return h->s; }
int shim_peer_n(shim_peer *h) { return h->s->n; }
int shim_peer_t(shim_peer *h) { return h->s->t; }
int shim_peer_index(shim_peer *h) { return h->s->index; }
void shim_peer_sid(shim_peer *h, uint8_t *o) { memcpy(o, h->s->sessionid, sizeof h->s->sessionid); }
void shim_peer_sk(shim_peer *h, uint8_t *o) { memcpy(o, h->s->sig_sk, crypto_sign_SECRETKEYBYTES); }
void shim_peer_share(shim_peer *h, uint8_t *o) { memcpy(o, &h->s->share, sizeof(TOPRF_Share)); }
uint8_t *shim_peer_shares(shim_peer *h) { return (uint8_t*) *h->s->shares; }    // dealt
uint8_t *shim_peer_xshares(shim_peer *h) { return (uint8_t*) *h->s->xshares; }  // received
int shim_peer_lt_wiped(shim_peer *h) { return sodium_is_zero(h->s->lt_sk, sizeof h->s->lt_sk); }
// the transport keys of a channel, as the complaint procedure discloses them; 0 if not established
static int chan_keys(Noise_XK_session_t *sn, uint8_t *send, uint8_t *recv) {
  if(sn==NULL) return 0;
  if(sn->tag == Noise_XK_DS_Initiator && sn->val.case_DS_Initiator.state.tag == Noise_XK_IMS_Transport) {
    memcpy(send, sn->val.case_DS_Initiator.state.val.case_IMS_Transport.send_key, 32);
    memcpy(recv, sn->val.case_DS_Initiator.state.val.case_IMS_Transport.receive_key, 32);
    return 1;
  }
  if(sn->tag == Noise_XK_DS_Responder && sn->val.case_DS_Responder.state.tag == Noise_XK_IMS_Transport) {
    memcpy(send, sn->val.case_DS_Responder.state.val.case_IMS_Transport.send_key, 32);
    memcpy(recv, sn->val.case_DS_Responder.state.val.case_IMS_Transport.receive_key, 32);
    return 1;
  }
  return 0;
}
int shim_peer_out_key(shim_peer *h, int i, uint8_t *send, uint8_t *recv) { return chan_keys((*h->s->noise_outs)[i], send, recv); }
int shim_peer_in_key(shim_peer *h, int i, uint8_t *send, uint8_t *recv) { return chan_keys((*h->s->noise_ins)[i], send, recv); }
void shim_peer_noise_sk(shim_peer *h, uint8_t *o) { memcpy(o, h->s->noise_sk, 32); }
void shim_peer_release(shim_peer *h) { tpdkg_peer_free(h->s); }
void shim_peer_free(shim_peer *h) { for(int i=0;i<16;i++) free(h->b[i]); free(h->s); free(h); }
// the payload encryption used for shares, for building misbehaving messages
void shim_aead_encrypt(uint8_t *key, uint64_t nonce, uint32_t len, uint8_t *plain, uint8_t *cipher) {
  Noise_XK_aead_encrypt(key, nonce, 0, NULL, len, plain, cipher);
}

// ---------------------------------------------------------------- calls on a stack of their own
#include <ucontext.h>
#include <link.h>
#include <sys/mman.h>
static uint8_t *own = NULL;
static size_t own_size = 0;
static ucontext_t ctx_back, ctx_own;
static struct { void *fn; long a[8]; int rc; } todo;
static void own_main(void) {
  int (*f)(long, long, long, long, long, long, long, long) = (int (*)(long, long, long, long, long, long, long, long)) todo.fn;
  todo.rc = f(todo.a[0], todo.a[1], todo.a[2], todo.a[3], todo.a[4], todo.a[5], todo.a[6], todo.a[7]);
}
int shim_apart(void *fn, const long a[8]) {
  if(own == NULL) {
    own_size = (size_t) 16 << 20;
    own = mmap(NULL, own_size, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if(own == MAP_FAILED) abort();
  }
  // back to untouched pages, so that nothing of the previous call is found
  if(madvise(own, own_size, MADV_DONTNEED)) abort();
  todo.fn = fn;
  memcpy(todo.a, a, sizeof todo.a);
  if(getcontext(&ctx_own)) abort();
  ctx_own.uc_stack.ss_sp = own;
  ctx_own.uc_stack.ss_size = own_size;
  ctx_own.uc_link = &ctx_back;
  makecontext(&ctx_own, own_main, 0);
  if(swapcontext(&ctx_back, &ctx_own)) abort();
  return todo.rc;
}
// the variables of the library itself
struct needle { const uint8_t *x; size_t len; int found; };
static int in_data(struct dl_phdr_info *i, size_t size, void *arg) {
  struct needle *n = arg;
  int mine = 0;
  for(int k=0;k<i->dlpi_phnum;k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    const uint8_t *from = (const uint8_t*) (i->dlpi_addr + p->p_vaddr);
    if(p->p_type == PT_LOAD && (const uint8_t*) &own >= from && (const uint8_t*) &own < from + p->p_memsz) mine = 1;
  }
  if(!mine) return 0;
  for(int k=0;k<i->dlpi_phnum;k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    if(p->p_type == PT_LOAD && (p->p_flags & PF_W) && memmem((void*) (i->dlpi_addr + p->p_vaddr), p->p_memsz, n->x, n->len)) n->found = 1;
  }
  return 1;
}
// whether the bytes were left on that stack or there
int shim_left(const uint8_t *x, size_t len) {
  const size_t used = (size_t) 2 << 20;  // deeper than any call here goes
  struct needle n = { x, len, 0 };
  dl_iterate_phdr(in_data, &n);
  return n.found || memmem(own + own_size - used, used, x, len) != NULL;
}
int shim_peer_holds(shim_peer *h, const uint8_t *x, size_t len) { return memmem(h->s, sizeof(TP_DKG_PeerState), x, len) != NULL; }
