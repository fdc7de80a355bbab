// A prime-order group of runtime-settable order q in place of ristretto255, for experiments that
// enumerate every outcome of the random generator. Elements are encoded discrete logarithms.
// libsodium's contract is kept: canonical encodings only, identity results of multiplications are
// errors, multiplications ignore bit 255 of the scalar, scalar arithmetic reduces its arguments.
// One idealisation: random scalars are uniform including 0 (libsodium excludes 0, a 2^-252 event).
#include <stdint.h>
#include <string.h>
#include <sodium.h>

static uint64_t Q = 46337;
void toy_set_order(uint64_t q) { Q = q; }
uint64_t toy_order(void) { return Q; }

static uint64_t red(const uint8_t *b, size_t len, int mask) {
  uint64_t r = 0;
  for(size_t i=len;i-->0;) {
    uint8_t v = b[i];
    if(mask && i==31) v &= 0x7f;
    r = ((r << 8) | v) % Q;
  }
  return r;
}
static void put(uint8_t o[32], uint64_t v) { memset(o, 0, 32); for(int i=0;i<8;i++) o[i] = (uint8_t) (v >> (8*i)); }
static int get(const uint8_t p[32], uint64_t *v) {
  *v = 0;
  for(int i=0;i<8;i++) *v |= (uint64_t) p[i] << (8*i);
  for(int i=8;i<32;i++) if(p[i]) return -1;
  return *v < Q ? 0 : -1;
}
static uint64_t power(uint64_t b, uint64_t e) { uint64_t r=1; b%=Q; for(;e;e>>=1,b=b*b%Q) if(e&1) r=r*b%Q; return r; }

int crypto_core_ristretto255_is_valid_point(const unsigned char *p) { uint64_t v; return get(p,&v)==0; }
int crypto_core_ristretto255_add(unsigned char *r, const unsigned char *p, const unsigned char *q) {
  uint64_t a,b; if(get(p,&a)||get(q,&b)) return -1; put(r,(a+b)%Q); return 0; }
int crypto_core_ristretto255_sub(unsigned char *r, const unsigned char *p, const unsigned char *q) {
  uint64_t a,b; if(get(p,&a)||get(q,&b)) return -1; put(r,(a+Q-b)%Q); return 0; }
int crypto_core_ristretto255_from_hash(unsigned char *p, const unsigned char *r) { put(p, 1 + red(r,64,0) % (Q-1)); return 0; }
void crypto_core_ristretto255_scalar_random(unsigned char *r) { uint8_t b[32]; randombytes_buf(b,32); put(r, red(b,32,0)); }
void crypto_core_ristretto255_random(unsigned char *p) { uint8_t b[32]; randombytes_buf(b,32); put(p, red(b,32,0)); }
int crypto_core_ristretto255_scalar_invert(unsigned char *r, const unsigned char *s) {
  uint64_t v = red(s,32,0); put(r, power(v,Q-2)); return v==0 ? -1 : 0; }
void crypto_core_ristretto255_scalar_negate(unsigned char *n, const unsigned char *s) { put(n, (Q-red(s,32,0))%Q); }
void crypto_core_ristretto255_scalar_complement(unsigned char *c, const unsigned char *s) { put(c, (1+Q-red(s,32,0))%Q); }
void crypto_core_ristretto255_scalar_add(unsigned char *z, const unsigned char *x, const unsigned char *y) { put(z,(red(x,32,0)+red(y,32,0))%Q); }
void crypto_core_ristretto255_scalar_sub(unsigned char *z, const unsigned char *x, const unsigned char *y) { put(z,(red(x,32,0)+Q-red(y,32,0))%Q); }
void crypto_core_ristretto255_scalar_mul(unsigned char *z, const unsigned char *x, const unsigned char *y) { put(z,red(x,32,0)*red(y,32,0)%Q); }
void crypto_core_ristretto255_scalar_reduce(unsigned char *r, const unsigned char *s) { put(r, red(s,64,0)); }
int crypto_scalarmult_ristretto255(unsigned char *q, const unsigned char *n, const unsigned char *p) {
  uint64_t v; if(get(p,&v)) return -1; put(q, red(n,32,1)*v%Q); return sodium_is_zero(q,32) ? -1 : 0; }
int crypto_scalarmult_ristretto255_base(unsigned char *q, const unsigned char *n) {
  put(q, red(n,32,1)); return sodium_is_zero(q,32) ? -1 : 0; }
