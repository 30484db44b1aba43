/* P21: the random source of the known-answer generator against an independent AES-256 CTR-DRBG. */
#include "hcommon.hpp"
#include "aes.hpp"
extern "C" { void kg_init(u8 *, u8 *, int); int kg_random(u8 *, unsigned long long); int kg_xinit(int, u8 *, u8 *, unsigned long); int kg_x(int, u8 *, unsigned long); void kg_xcopy(int, int); void kg_codes(int *);
  int kg_xs_ctr(u8 *, const u8 *, unsigned long, u8 *, unsigned long); void g_info(struct g_params *) {} }
static int code[4];
/* the expander as specified */
struct XM { u8 key[32], ctr[16]; u64 rem; Bytes have; size_t pos = 0;
    int init(const u8 *s, const u8 *d, u64 maxlen) { if (maxlen >> 32) return 1; memcpy(key, s, 32); memcpy(ctr, d, 8); for (int i = 0; i < 4; i++) ctr[8 + i] = (u8)(maxlen >> 8*(3 - i)); memset(ctr + 12, 0, 4); rem = maxlen; have.clear(); pos = 0; return 0; }
    int get(u8 *o, u64 n) { if (n >= rem) return 3; rem -= n; while (n--) { if (pos == have.size()) { have.resize(16); Aes256(key).enc(ctr, have.data()); pos = 0; u32 c = (u32)ctr[12] << 24 | ctr[13] << 16 | ctr[14] << 8 | ctr[15]; c++; ctr[12] = c >> 24; ctr[13] = c >> 16; ctr[14] = c >> 8; ctr[15] = c; } *o++ = have[pos++]; } return 0; } };
static void entropy_for(const u8 *key, const u8 *v, u8 *e) { Drbg d; u8 z[48] = {0}; d.init(z, nullptr); for (int i = 0; i < 32; i++) e[i] = d.key[i] ^ key[i]; for (int i = 0; i < 16; i++) e[32 + i] = d.v[i] ^ v[i]; }
static bool request(Drbg &d, size_t n, const char *what) {
    Buf b(n, n % 16); C.transitions++; int rc = kg_random(b.p, n); Bytes w = d.gen(n);
    if (rc != code[0]) { viol("%s: request of %zu bytes returned %d", what, n, rc); return false; }
    if (!b.intact()) { viol("%s: request of %zu bytes wrote outside its buffer", what, n); return false; }
    if (n && memcmp(b.p, w.data(), n)) { size_t i = 0; while (b.p[i] == w[i]) i++; viol("%s: byte %zu of a request of %zu bytes is not the generator's output", what, i, n); return false; }
    C.traces++; return true; }
static void e_drbg() {
    const bool deep = C.tier; u8 key[32], v[16], e[48], p[48];
    /* counter values: every number of trailing 0xff bytes, every distance to the carry */
    for (int L = 0; L <= 16; L++) for (int pre : {0x00, 0x7f, 0xfe, 0x80}) for (int dist = 0; dist < 8; dist++) {
        if (!scn("counter with %d trailing ff bytes after %02x, %d blocks before the carry", L, pre, dist)) continue;
        Prng r(L*100 + pre + dist); r.fill(key, 32); r.fill(v, 16); for (int i = 0; i < L; i++) v[15 - i] = 0xff; if (L < 16) v[15 - L] = pre; if (L) v[15] = (u8)(0xff - dist);
        for (size_t n = 0; n < (deep ? 150u : 100u); n += (deep || dist == 0) ? 1 : 7) { entropy_for(key, v, e); kg_init(e, nullptr, 256); Drbg d; d.init(e, nullptr); if (memcmp(d.v, v, 16)) { fprintf(stderr, "harness: drbg\n"); exit(9); }
            if (!request(d, n, "first") || !request(d, 17, "second") || !request(d, 0, "third") || !request(d, 5, "fourth")) break; } }
    /* every sequence of requests */
    static const size_t LN[] = {0, 1, 15, 16, 17, 31, 32, 33, 48, 100}; const int NL = 10, D = deep ? 5 : 4; int tot = 1; for (int i = 0; i < D; i++) tot *= NL;
    for (int s = 0; s < tot; s++) { if (!scn("request sequence %d", s)) continue; Prng r(7); r.fill(e, 48); kg_init(e, nullptr, 256); Drbg d; d.init(e, nullptr); for (int k = 0, t = s; k < D; k++, t /= NL) if (!request(d, LN[t % NL], "sequence")) break; }
    /* every bit of entropy and personalization */
    for (int b = 0; b < 384; b++) for (int w = 0; w < 4; w++) { if (!scn("bit %d, case %d", b, w)) continue;
        Prng r(9); r.fill(e, 48); r.fill(p, 48); if (w == 2) memset(p, 0, 48); if (w == 3) memset(e, 0, 48); (w & 1 ? p : e)[b/8] ^= 1 << b % 8; Buf be(48, w), bp(48, w); memcpy(be.p, e, 48); memcpy(bp.p, p, 48);
        static const int ST[] = {256, 128, 192, 0}; kg_init(be.p, w ? bp.p : nullptr, ST[w]); Drbg d; d.init(e, w ? p : nullptr);
        if (memcmp(be.p, e, 48) || memcmp(bp.p, p, 48)) viol("initialisation altered its inputs"); request(d, 40, "after initialisation") && request(d, 3, "after initialisation"); }
    /* initialisation forgets everything */
    for (int k = 0; k < 40; k++) { if (!scn("initialisation after %d requests", k)) continue; Bytes t(64); for (int i = 0; i < k; i++) kg_random(t.data(), i % 50); Prng r(3); r.fill(e, 48); kg_init(e, nullptr, 256); Drbg d; d.init(e, nullptr); request(d, 33, "reinitialised"); }
    /* long requests: carries into the second and third counter byte inside one request */
    for (size_t n : {255u, 256u, 257u, 4079u, 4080u, 4081u, 4095u, 4096u, 4097u, 4112u, 32767u, 32768u, 32769u, 65535u, 65536u, 65537u, 131071u, 1048575u, 1048592u}) for (int k = 0; k < 2; k++) { if (n > 200000 && k && !deep) continue; if (!scn("request of %zu bytes, counter start %d", n, k)) continue;
        Prng r(n); r.fill(key, 32); r.fill(v, 16); if (k) { v[13] = 0xff; v[14] = 0xff; v[15] = 0xf0; } entropy_for(key, v, e); kg_init(e, nullptr, 256); Drbg d; d.init(e, nullptr); request(d, n, "long") && request(d, 20, "after long"); }
}
static bool xreq(int i, XM &m, size_t n) { Buf b(n, n % 8); Bytes w(n + 1); C.transitions++; int want = m.get(w.data(), n), rc = kg_x(i, b.p, n);
    if (rc != code[want]) { viol("expander request of %zu bytes returned %d, expected %d", n, rc, code[want]); return false; }
    if (!b.intact()) { viol("expander request of %zu bytes wrote outside its buffer", n); return false; }
    if (want == 0 && n && memcmp(b.p, w.data(), n)) { viol("expander request of %zu bytes returned wrong bytes", n); return false; }
    C.traces++; return true; }
static void e_xof() {
    const bool deep = C.tier; u8 seed[32], div[8]; Prng r0(5); r0.fill(seed, 32); r0.fill(div, 8);
    /* every division of every total */
    for (size_t L = 1; L <= (deep ? 96u : 70u); L++) { if (!scn("divisions of %zu bytes", L)) continue;
        for (size_t a = 0; a <= L; a++) for (size_t b = a; b <= L; b += (deep || L < 40) ? 1 : 3) { XM m; m.init(seed, div, 1000); if (kg_xinit(0, seed, div, 1000) != code[0]) { viol("initialisation refused"); break; } if (!xreq(0, m, a) || !xreq(0, m, b - a) || !xreq(0, m, L - b) || !xreq(0, m, 1)) { a = L; break; } } }
    /* every sequence over border sizes, on two instances */
    static const size_t LN[] = {0, 1, 7, 15, 16, 17, 32, 33}; const int D = deep ? 5 : 4; int tot = 1; for (int i = 0; i < D; i++) tot *= 16;
    for (int s = 0; s < tot; s++) { if (!scn("interleaved sequence %d", s)) continue; XM m[2]; for (int i = 0; i < 2; i++) { u8 d2[8]; memcpy(d2, div, 8); d2[0] ^= i; m[i].init(seed, d2, 120); kg_xinit(i, seed, d2, 120); } for (int k = 0, t = s; k < D; k++, t /= 16) if (!xreq(t & 1, m[t & 1], LN[(t >> 1) & 7])) break; }
    /* limits: every small maximum, every pair of requests, refusals leave the state alone */
    for (size_t M = 0; M <= 40; M++) { if (!scn("maximum %zu", M)) continue; for (size_t a = 0; a <= 42; a++) for (size_t b = 0; b <= 42; b += 1) { XM m; m.init(seed, div, M); kg_xinit(0, seed, div, M); if (!xreq(0, m, a) || !xreq(0, m, b) || !xreq(0, m, 1)) { a = 99; break; } } }
    for (u64 M : {255ull, 256ull, 65535ull, 65536ull, 0xffffffull, 0x1000000ull, 0x01020304ull, 0x7fffffffull, 0x80000000ull, 0xfffffffeull, 0xffffffffull}) { if (!scn("maximum %llu", (unsigned long long)M)) continue; XM m; m.init(seed, div, M); if (kg_xinit(0, seed, div, M) != code[0]) { viol("maximum refused"); continue; }
        for (u64 n : {M, M + 1, M + 16, (u64)~0ull}) { u8 b[1]; int rc = kg_x(0, b, n); if (rc != code[3]) viol("request of %llu bytes returned %d", (unsigned long long)n, rc); } xreq(0, m, 33); }
    for (u64 M : {0x100000000ull, 0x100000001ull, 0x8000000000000000ull, ~0ull}) { if (!scn("maximum %llu", (unsigned long long)M)) continue; int rc = kg_xinit(0, seed, div, M); if (rc != code[1]) viol("maximum of at least 2^32 returned %d", rc); }
    for (int k = 0; k < 40; k++) { if (!scn("no output buffer after %d bytes", k)) continue; XM m; m.init(seed, div, 100); kg_xinit(0, seed, div, 100); xreq(0, m, k); for (unsigned long n : {0ul, 1ul, 16ul, 50ul, 5000ul}) { int rc = kg_x(0, nullptr, n); if (rc != code[2]) viol("missing output buffer returned %d", rc); } xreq(0, m, 20); }
    /* every bit of seed and diversifier */
    for (int b = 0; b < 320; b++) { if (!scn("bit %d of seed and diversifier", b)) continue; u8 s2[32], d2[8]; memcpy(s2, seed, 32); memcpy(d2, div, 8); (b < 256 ? s2[b/8] : d2[(b - 256)/8]) ^= 1 << b % 8; XM m; m.init(s2, d2, 77); kg_xinit(1, s2, d2, 77); xreq(1, m, 40) && xreq(1, m, 20); }
    /* long output: carries of the block counter; copies of the state continue independently */
    if (scn("carry into the third counter byte")) { XM m; m.init(seed, div, 0x200000); kg_xinit(0, seed, div, 0x200000); for (int i = 0; i < 258; i++) if (!xreq(0, m, 4096 - (i == 3))) break; }
    for (int k = 0; k < 50; k++) { if (!scn("copy after %d bytes", k)) continue; XM m; m.init(seed, div, 500); kg_xinit(0, seed, div, 500); xreq(0, m, k); XM c = m; kg_xcopy(2, 0); xreq(0, m, 30); xreq(2, c, 45); xreq(0, m, 9); }
}
#ifdef WITH_STATE
static void e_ctr() {
    u8 seed[32], ctr[16]; Prng r(6); r.fill(seed, 32);
    for (int L = 0; L < 4; L++) for (int pre : {0x00, 0x7f, 0xfe}) for (int dist = 0; dist < 4; dist++) { if (!scn("block counter with %d trailing ff bytes, %d before the carry", L, dist)) continue;
        r.fill(ctr, 16); ctr[12] = 0; for (int i = 0; i < L; i++) ctr[15 - i] = 0xff; ctr[15 - L] = pre; if (L) ctr[15] = 0xff - dist;
        for (size_t n = 0; n < 100; n++) { Bytes o(n + 1); if (kg_xs_ctr(seed, ctr, 1000, o.data(), n) != code[0]) { viol("request of %zu bytes refused", n); break; } Bytes w(n + 17); u8 c[16]; memcpy(c, ctr, 16); Aes256 a(seed);
            for (size_t i = 0; i < n; i += 16) { a.enc(c, w.data() + i); for (int j = 15; j >= 12; j--) if (++c[j]) break; }
            C.transitions++; if (n && memcmp(o.data(), w.data(), n)) { viol("wrong bytes in a request of %zu", n); break; } } }
}
#endif
int main(int argc, char **argv) {
    h_init(argc, argv); kg_codes(code); std::string cmd = argv[1];
    { /* the oracle against FIPS 197 appendix C.3 and the well-known first known-answer seed */
        u8 k[32], p[16], o[16]; for (int i = 0; i < 32; i++) k[i] = i; for (int i = 0; i < 16; i++) p[i] = i*17; Aes256(k).enc(p, o); if (hex(o, 16) != "8ea2b7ca516745bfeafc49904b496089") { fprintf(stderr, "harness: AES\n"); return 9; }
        u8 e[48]; for (int i = 0; i < 48; i++) e[i] = i; Drbg d; d.init(e, nullptr); Bytes s = d.gen(48); if (hex(s.data(), 16) != "061550234d158c5ec95595fe04ef7a25") { fprintf(stderr, "harness: DRBG %s\n", hex(s.data(), 16).c_str()); return 9; } }
    if (cmd == "drbg") e_drbg(); else if (cmd == "xof") e_xof();
#ifdef WITH_STATE
    else if (cmd == "ctr") e_ctr();
#endif
    else return 2;
    return h_finish();
}
