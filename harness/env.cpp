#include "env.h"
#include <string.h>
#include <map>
#include <string>
#include <vector>
#include <array>

int env_mode = 1;
unsigned long env_calls, env_script_hits, env_digests; uint8_t env_last_digest[64];
const void *env_watch; unsigned long env_watch_bytes, env_watch_inits;
void (*env_hook)(void);
size_t env_big_absorb;

/* ---------------- independent Keccak-f[1600] (FIPS 202, section 3) -------- */
static const uint64_t RC[24] = {
0x0000000000000001ULL,0x0000000000008082ULL,0x800000000000808aULL,0x8000000080008000ULL,
0x000000000000808bULL,0x0000000080000001ULL,0x8000000080008081ULL,0x8000000000008009ULL,
0x000000000000008aULL,0x0000000000000088ULL,0x0000000080008009ULL,0x000000008000000aULL,
0x000000008000808bULL,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,
0x8000000000008002ULL,0x8000000000000080ULL,0x000000000000800aULL,0x800000008000000aULL,
0x8000000080008081ULL,0x8000000000008080ULL,0x0000000080000001ULL,0x8000000080008008ULL};
static inline uint64_t rol(uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }
__attribute__((optimize("O3"))) static void keccakf(uint64_t A[25]) {
    static const int rot[25] = {0,1,62,28,27, 36,44,6,55,20, 3,10,43,25,39, 41,45,15,21,8, 18,2,61,56,14};
    uint64_t B[25], C[5], D[5];
    for (int r = 0; r < 24; r++) {
#pragma GCC unroll 5
        for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20];
#pragma GCC unroll 5
        for (int x = 0; x < 5; x++) D[x] = C[(x+4)%5] ^ rol(C[(x+1)%5], 1);
#pragma GCC unroll 5
        for (int y = 0; y < 5; y++)
#pragma GCC unroll 5
            for (int x = 0; x < 5; x++)
                B[y + 5*((2*x+3*y)%5)] = rol(A[x+5*y] ^ D[x], rot[x+5*y]);
#pragma GCC unroll 5
        for (int y = 0; y < 5; y++)
#pragma GCC unroll 5
            for (int x = 0; x < 5; x++)
                A[x+5*y] = B[x+5*y] ^ (~B[(x+1)%5+5*y] & B[(x+2)%5+5*y]);
        A[0] ^= RC[r];
    }
}
static int rate(int alg) { static const int r[] = {168,136,136,104,72}; return r[alg]; }
static int digest_len(int alg) { static const int r[] = {0,0,32,48,64}; return r[alg]; }

void ek_init(uint64_t c[26]) { memset(c, 0, 26*8); }
void ek_absorb(uint64_t c[26], int alg, const uint8_t *in, size_t n) {
    unsigned char *s = (unsigned char *)c; size_t p = c[25]; const size_t r = rate(alg);
    while (n) {
        if (p == 0 && n >= r) {
            for (size_t i = 0; i < r/8; i++) { uint64_t w; memcpy(&w, in + 8*i, 8); c[i] ^= w; }
            in += r; n -= r; keccakf(c); continue;
        }
        s[p++] ^= *in++; n--;
        if (p == r) { keccakf(c); p = 0; }
    }
    c[25] = p;
}
void ek_finalize(uint64_t c[26], int alg) {
    unsigned char *s = (unsigned char *)c;
    s[c[25]] ^= (alg <= ALG_SHAKE256) ? 0x1f : 0x06;
    s[rate(alg)-1] ^= 0x80;
    c[25] = rate(alg);                       /* squeeze position: block exhausted */
}
void ek_squeeze(uint64_t c[26], int alg, uint8_t *out, size_t n) {
    unsigned char *s = (unsigned char *)c; const size_t r = rate(alg);
    while (n) {
        if (c[25] == r) { keccakf(c); c[25] = 0; }
        size_t m = r - c[25]; if (m > n) m = n;
        memcpy(out, s + c[25], m); c[25] += m; out += m; n -= m;
    }
}

/* ---------------- scripts -------------------------------------------------- */
typedef std::array<uint64_t, 26> Key;        /* finalised state, word 25 = alg */
struct Script { std::string bytes; Key start; };
static std::map<Key, int> table;
static std::vector<Script> scripts;
static bool next_set; static int next_alg; static std::string next_bytes;
static const uint64_t MAGIC1 = 0x5ec2e7a11ab1e001ULL, MAGIC2 = 0x0ddba11c0ffee123ULL;

int env_keep_scripts;
void env_reset(void) { if (!env_keep_scripts) { table.clear(); scripts.clear(); } next_set = false; env_calls = env_script_hits = 0; env_watch_bytes = env_watch_inits = 0; }
static Key key_of(const uint64_t c[26], int alg) { Key k; memcpy(k.data(), c, 25*8); k[25] = alg; return k; }
void env_script(int alg, const uint8_t *in, size_t inlen, const uint8_t *b, size_t n) {
    uint64_t c[26]; ek_init(c); ek_absorb(c, alg, in, inlen); ek_finalize(c, alg);
    Key k = key_of(c, alg);
    Script s; s.bytes.assign((const char *)b, n); memcpy(s.start.data(), c, sizeof c);
    scripts.push_back(s); table[k] = (int)scripts.size() - 1;
}
void env_script_next_digest(int xof_alg, const uint8_t *b, size_t n) {
    next_set = true; next_alg = xof_alg; next_bytes.assign((const char *)b, n);
}
void ex_finalize(uint64_t c[26], int alg) {
    ek_finalize(c, alg);
    if (table.empty()) return;
    auto it = table.find(key_of(c, alg));
    if (it != table.end()) { c[0] = MAGIC1; c[1] = MAGIC2; c[2] = it->second; c[3] = 0; }
}
void ex_squeeze(uint64_t c[26], int alg, uint8_t *out, size_t n) {
    if (c[0] == MAGIC1 && c[1] == MAGIC2) {
        const Script &s = scripts[c[2]];
        size_t p = c[3], m = s.bytes.size() - p; if (m > n) m = n;
        memcpy(out, s.bytes.data() + p, m); c[3] += m; out += m; n -= m; env_script_hits++;
        if (n) { memcpy(c, s.start.data(), 26*8); ek_squeeze(c, alg, out, n); }
        return;
    }
    ek_squeeze(c, alg, out, n);
}
void ex_digest(uint64_t c[26], int alg, uint8_t *out) {
    ek_finalize(c, alg); ek_squeeze(c, alg, out, digest_len(alg));
    if (next_set) {
        next_set = false;
        env_script(next_alg, out, digest_len(alg), (const uint8_t *)next_bytes.data(), next_bytes.size());
    }
}
void ex_absorb(uint64_t c[26], int alg, const uint8_t *in, size_t n) {
    if (env_big_absorb && n >= env_big_absorb) {
        uint64_t h = n; ek_absorb(c, alg, (uint8_t *)&h, 8);
        ek_absorb(c, alg, in, 64); ek_absorb(c, alg, in + n - 64, 64); return;
    }
    ek_absorb(c, alg, in, n);
}

/* ---------------- link-time interposition ---------------------------------- */
#define HOOK() do { env_calls++; if (env_hook) env_hook(); } while (0)
extern "C" {
#define WRAP_XOF(P, ALG) \
 void __real_##P##_init(uint64_t *); void __real_##P##_absorb(uint64_t *, const uint8_t *, size_t); \
 void __real_##P##_finalize(uint64_t *); void __real_##P##_squeeze(uint8_t *, size_t, uint64_t *); \
 void __wrap_##P##_init(uint64_t *c) { HOOK(); if (c == env_watch) env_watch_inits++; if (!env_mode) __real_##P##_init(c); else ek_init(c); } \
 void __wrap_##P##_absorb(uint64_t *c, const uint8_t *in, size_t n) { HOOK(); if (!env_mode) __real_##P##_absorb(c, in, n); else ex_absorb(c, ALG, in, n); } \
 void __wrap_##P##_finalize(uint64_t *c) { HOOK(); if (!env_mode) __real_##P##_finalize(c); else ex_finalize(c, ALG); } \
 void __wrap_##P##_squeeze(uint8_t *o, size_t n, uint64_t *c) { HOOK(); if (c == env_watch) env_watch_bytes += n; if (!env_mode) __real_##P##_squeeze(o, n, c); else ex_squeeze(c, ALG, o, n); }
WRAP_XOF(shake128_inc, ALG_SHAKE128)
WRAP_XOF(shake256_inc, ALG_SHAKE256)
#define WRAP_SHA(P, ALG) \
 void __real_##P##_init(uint64_t *); void __real_##P##_absorb(uint64_t *, const uint8_t *, size_t); \
 void __real_##P##_finalize(uint8_t *, uint64_t *); \
 void __wrap_##P##_init(uint64_t *c) { HOOK(); if (!env_mode) __real_##P##_init(c); else ek_init(c); } \
 void __wrap_##P##_absorb(uint64_t *c, const uint8_t *in, size_t n) { HOOK(); if (!env_mode) __real_##P##_absorb(c, in, n); else ex_absorb(c, ALG, in, n); } \
 void __wrap_##P##_finalize(uint8_t *o, uint64_t *c) { HOOK(); if (!env_mode) __real_##P##_finalize(o, c); else ex_digest(c, ALG, o); memcpy(env_last_digest, o, digest_len(ALG)); env_digests++; }
WRAP_SHA(sha3_256_inc, ALG_SHA3_256)
WRAP_SHA(sha3_384_inc, ALG_SHA3_384)
WRAP_SHA(sha3_512_inc, ALG_SHA3_512)
}
