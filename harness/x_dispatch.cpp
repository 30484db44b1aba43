/* The g_* interface answered by all linked implementations at once; any
 * difference between them is reported.  Results returned are the first one's. */
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include "glue.h"
extern "C" void cross_report(const char *);
#define IMPL(p) extern "C" { void p##g_info(g_params *); int p##g_keypair(uint8_t *, uint8_t *); int p##g_sign(uint8_t *, unsigned long long *, const uint8_t *, unsigned long long, const uint8_t *); \
  int p##g_open(uint8_t *, unsigned long long *, const uint8_t *, unsigned long long, const uint8_t *); void p##g_seed(const uint8_t *, unsigned); void p##g_rng_get(void *); void p##g_rng_set(const void *); \
  unsigned p##g_rng_size(void); void p##g_random(uint8_t *, unsigned long); void p##g_xof(uint8_t *, unsigned long, const uint8_t *, unsigned); }
IMPL(ref_) IMPL(avx2_)
#ifndef NO_NEON
IMPL(neon_)
#endif
struct Impl { const char *name; decltype(&ref_g_info) info; decltype(&ref_g_keypair) keypair; decltype(&ref_g_sign) sign; decltype(&ref_g_open) open; decltype(&ref_g_seed) seed;
  decltype(&ref_g_rng_get) get; decltype(&ref_g_rng_set) set; decltype(&ref_g_rng_size) size; decltype(&ref_g_random) random; decltype(&ref_g_xof) xof; };
#define ROW(n, p) {n, p##g_info, p##g_keypair, p##g_sign, p##g_open, p##g_seed, p##g_rng_get, p##g_rng_set, p##g_rng_size, p##g_random, p##g_xof}
static const Impl IM[] = {ROW("reference", ref_), ROW("AVX2", avx2_),
#ifndef NO_NEON
  ROW("NEON", neon_),
#endif
};
static const int NI = sizeof IM/sizeof IM[0];
static g_params par;
typedef std::vector<uint8_t> B;
/* working copy with guard bytes, in the alignment class of the caller's buffer */
struct Copy { B b; uint8_t *p; size_t n; Copy(const uint8_t *src, size_t n_) : b(n_ + 128 + 64, 0xC3), n(n_) { uintptr_t a = ((uintptr_t)b.data() + 95) & ~(uintptr_t)31; p = (uint8_t *)a + ((uintptr_t)src & 31); if (n) memcpy(p, src, n); } };
static void diff(int i, const char *what, long at = -1) { char t[300]; snprintf(t, sizeof t, at >= 0 ? "%s and %s differ in %s at byte %ld" : "%s and %s differ in %s", IM[0].name, IM[i].name, what, at); cross_report(t); }
static long first(const uint8_t *a, const uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (long)i; return -1; }
extern "C" {
void g_info(g_params *p) {
    IM[0].info(&par); *p = par;
    for (int i = 1; i < NI; i++) { g_params q; IM[i].info(&q);
        if (q.cat != par.cat || q.n != par.n || q.k != par.k || q.t != par.t || q.w != par.w || q.nk != par.nk || q.seedlen != par.seedlen) diff(i, "parameters");
        if (q.pkbytes != par.pkbytes || q.skbytes != par.skbytes || q.sigmax != par.sigmax || q.actbytes != par.actbytes || q.rrefbytes != par.rrefbytes) diff(i, "sizes"); } }
int g_keypair(uint8_t *pk, uint8_t *sk) {
    Copy p0(pk, par.pkbytes), s0(sk, par.skbytes); int rc = IM[0].keypair(pk, sk);
    for (int i = 1; i < NI; i++) { Copy p(p0.p, p0.n), s(s0.p, s0.n); if (IM[i].keypair(p.p, s.p) != rc) diff(i, "the result of key generation");
        long d = first(pk, p.p, p.n); if (d >= 0) diff(i, "the public key", d); d = first(sk, s.p, s.n); if (d >= 0) diff(i, "the secret key", d); }
    return rc; }
int g_sign(uint8_t *sm, unsigned long long *n, const uint8_t *m, unsigned long long ml, const uint8_t *sk) {
    Copy s0(sm, ml + par.sigmax); int rc = IM[0].sign(sm, n, m, ml, sk);
    for (int i = 1; i < NI; i++) { Copy s(s0.p, s0.n); unsigned long long l = 5; if (IM[i].sign(s.p, &l, m, ml, sk) != rc) diff(i, "the result of signing");
        if (l != *n) diff(i, "the signed length"); else { long d = first(sm, s.p, l <= s.n ? l : s.n); if (d >= 0) diff(i, "the signed message", d); } }
    return rc; }
int g_open(uint8_t *m, unsigned long long *n, const uint8_t *sm, unsigned long long sl, const uint8_t *pk) {
    Copy m0(m, sl); int rc = IM[0].open(m, n, sm, sl, pk);
    for (int i = 1; i < NI; i++) { Copy c(m0.p, m0.n); unsigned long long l = 5; int r = IM[i].open(c.p, &l, sm, sl, pk);
        if ((r == 0) != (rc == 0)) diff(i, "the verdict"); else if (rc == 0) { if (l != *n) diff(i, "the recovered message length"); else { long d = first(m, c.p, l <= c.n ? l : c.n); if (d >= 0) diff(i, "the recovered message", d); } } }
    return rc; }
void g_seed(const uint8_t *s, unsigned n) { for (auto &i : IM) i.seed(s, n); }
unsigned g_rng_size(void) { unsigned n = 0; for (auto &i : IM) n += i.size(); return n; }
void g_rng_get(void *o) { uint8_t *p = (uint8_t *)o; for (auto &i : IM) { i.get(p); p += i.size(); } }
void g_rng_set(const void *o) { const uint8_t *p = (const uint8_t *)o; for (auto &i : IM) { i.set(p); p += i.size(); } }
void g_random(uint8_t *o, unsigned long n) { IM[0].random(o, n); B t(n); for (int i = 1; i < NI; i++) { IM[i].random(t.data(), n); if (memcmp(o, t.data(), n)) diff(i, "the position in the random stream"); } }
void g_xof(uint8_t *o, unsigned long n, const uint8_t *s, unsigned k) { IM[0].xof(o, n, s, k); B t(n); for (int i = 1; i < NI; i++) { IM[i].xof(t.data(), n, s, k); if (memcmp(o, t.data(), n)) diff(i, "the expansion of a seed"); } }
void g_set_poison(uint8_t) {} const void *g_rng_addr(void) { return nullptr; }
#ifdef REAL_STUBS
#define ST(f) void __real_##f() { fprintf(stderr, "harness: %s\n", #f); exit(9); }
ST(shake128_inc_init) ST(shake128_inc_absorb) ST(shake128_inc_finalize) ST(shake128_inc_squeeze) ST(shake256_inc_init) ST(shake256_inc_absorb) ST(shake256_inc_finalize) ST(shake256_inc_squeeze)
ST(sha3_256_inc_init) ST(sha3_256_inc_absorb) ST(sha3_256_inc_finalize) ST(sha3_384_inc_init) ST(sha3_384_inc_absorb) ST(sha3_384_inc_finalize) ST(sha3_512_inc_init) ST(sha3_512_inc_absorb) ST(sha3_512_inc_finalize)
#endif
}
