/* Independent AES-256 (FIPS 197) and CTR-DRBG (SP 800-90A, no derivation function). */
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
struct Aes256 { uint8_t rk[15][16]; static uint8_t *sb() { static uint8_t S[256]; static bool done = false;
        if (!done) { uint8_t p = 1, q = 1; do { p = p ^ (uint8_t)(p << 1) ^ (p & 0x80 ? 0x1B : 0); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 0x09;
              auto rl = [](uint8_t v, int n) { return (uint8_t)(v << n | v >> (8 - n)); }; S[p] = q ^ rl(q, 1) ^ rl(q, 2) ^ rl(q, 3) ^ rl(q, 4) ^ 0x63; } while (p != 1); S[0] = 0x63; done = true; } return S; }
    explicit Aes256(const uint8_t *k) { uint8_t *S = sb(), *w = &rk[0][0]; memcpy(w, k, 32); uint8_t rc = 1;
        for (int i = 8; i < 60; i++) { uint8_t t[4]; memcpy(t, w + 4*(i - 1), 4);
            if (i % 8 == 0) { uint8_t x = t[0]; t[0] = S[t[1]] ^ rc; t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[x]; rc = (uint8_t)(rc << 1); }
            else if (i % 8 == 4) for (auto &b : t) b = S[b];
            for (int j = 0; j < 4; j++) w[4*i + j] = w[4*(i - 8) + j] ^ t[j]; } }
    void enc(const uint8_t *in, uint8_t *out) const { uint8_t *S = sb(), s[16], t[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[0][i];
        for (int r = 1; r < 15; r++) { for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t[4*c + i] = S[s[4*((c + i) & 3) + i]];
            if (r < 14) for (int c = 0; c < 4; c++) { uint8_t *a = t + 4*c, x = a[0] ^ a[1] ^ a[2] ^ a[3], f = a[0]; auto d = [](uint8_t v) { return (uint8_t)(v << 1 ^ (v >> 7)*0x1B); };
                uint8_t n0 = a[0] ^ x ^ d(a[0] ^ a[1]), n1 = a[1] ^ x ^ d(a[1] ^ a[2]), n2 = a[2] ^ x ^ d(a[2] ^ a[3]), n3 = a[3] ^ x ^ d(a[3] ^ f); a[0] = n0; a[1] = n1; a[2] = n2; a[3] = n3; }
            for (int i = 0; i < 16; i++) s[i] = t[i] ^ rk[r][i]; }
        memcpy(out, s, 16); } };
struct Drbg { uint8_t key[32], v[16];
    static void inc(uint8_t *v) { unsigned c = 1; for (int i = 15; i >= 0; i--) { c += v[i]; v[i] = (uint8_t)c; c >>= 8; } }
    void update(const uint8_t *d) { uint8_t t[48]; Aes256 a(key); for (int i = 0; i < 3; i++) { inc(v); a.enc(v, t + 16*i); } if (d) for (int i = 0; i < 48; i++) t[i] ^= d[i]; memcpy(key, t, 32); memcpy(v, t + 32, 16); }
    void init(const uint8_t *e, const uint8_t *p) { uint8_t m[48]; for (int i = 0; i < 48; i++) m[i] = e[i] ^ (p ? p[i] : 0); memset(key, 0, 32); memset(v, 0, 16); update(m); }
    std::vector<uint8_t> gen(size_t n) { std::vector<uint8_t> o(n + 16); Aes256 a(key); for (size_t i = 0; i < n; i += 16) { inc(v); a.enc(v, o.data() + i); } o.resize(n); update(nullptr); return o; } };
