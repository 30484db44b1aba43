/* P18: the repository's SHA-3/SHAKE against an independent Keccak, over call patterns. */
#include "hcommon.hpp"
extern "C" {
#define XOFAPI(b) void shake##b##_inc_init(uint64_t *); void shake##b##_inc_absorb(uint64_t *, const uint8_t *, size_t); void shake##b##_inc_finalize(uint64_t *); void shake##b##_inc_squeeze(uint8_t *, size_t, uint64_t *); \
 void shake##b##_absorb(uint64_t *, const uint8_t *, size_t); void shake##b##_squeezeblocks(uint8_t *, size_t, uint64_t *); void shake##b(uint8_t *, size_t, const uint8_t *, size_t); void shake##b##_ctx_clone(uint64_t *, const uint64_t *) __attribute__((weak));
XOFAPI(128) XOFAPI(256)
#define SHAAPI(b) void sha3_##b##_inc_init(uint64_t *); void sha3_##b##_inc_absorb(uint64_t *, const uint8_t *, size_t); void sha3_##b##_inc_finalize(uint8_t *, uint64_t *); void sha3_##b(uint8_t *, const uint8_t *, size_t);
SHAAPI(256) SHAAPI(384) SHAAPI(512)
}
static const int RATE[] = {168, 136, 136, 104, 72}, DL[] = {0, 0, 32, 48, 64}; static const char *NM[] = {"SHAKE128", "SHAKE256", "SHA3-256", "SHA3-384", "SHA3-512"};
static void r_init(int a, u64 *c) { a == 0 ? shake128_inc_init(c) : a == 1 ? shake256_inc_init(c) : a == 2 ? sha3_256_inc_init(c) : a == 3 ? sha3_384_inc_init(c) : sha3_512_inc_init(c); C.transitions++; }
static void r_abs(int a, u64 *c, const u8 *p, size_t n) { a == 0 ? shake128_inc_absorb(c, p, n) : a == 1 ? shake256_inc_absorb(c, p, n) : a == 2 ? sha3_256_inc_absorb(c, p, n) : a == 3 ? sha3_384_inc_absorb(c, p, n) : sha3_512_inc_absorb(c, p, n); C.transitions++; }
static void r_fin(int a, u64 *c, u8 *o) { a == 0 ? shake128_inc_finalize(c) : a == 1 ? shake256_inc_finalize(c) : a == 2 ? sha3_256_inc_finalize(o, c) : a == 3 ? sha3_384_inc_finalize(o, c) : sha3_512_inc_finalize(o, c); C.transitions++; }
static void r_sqz(int a, u64 *c, u8 *o, size_t n) { a == 0 ? shake128_inc_squeeze(o, n, c) : shake256_inc_squeeze(o, n, c); C.transitions++; }
static void r_one(int a, u8 *o, size_t ol, const u8 *p, size_t n) { a == 0 ? shake128(o, ol, p, n) : a == 1 ? shake256(o, ol, p, n) : a == 2 ? sha3_256(o, p, n) : a == 3 ? sha3_384(o, p, n) : sha3_512(o, p, n); C.transitions++; }
static Bytes m_hash(int a, const u8 *p, size_t n, size_t ol) { u64 c[26]; ek_init(c); ek_absorb(c, a, p, n); ek_finalize(c, a); Bytes o(ol); ek_squeeze(c, a, o.data(), ol); return o; }
static Bytes msg(size_t n, int pat) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = pat == 0 ? (u8)(i*7 + 1) : pat == 1 ? 0 : pat == 2 ? 0xFF : (u8)(i*i >> 3 ^ i*31); return b; }
static const u8 G = 0xC3;

/* every message length, every output length near block borders, one-shot, with exact-size blocks */
static void e_oneshot() {
    for (int a = 0; a < 5; a++) { const int r = RATE[a];
        for (int n = 0; n <= 4*r + 9; n++) for (int pat = 0; pat < 4; pat++) { if (!scn("%s one-shot, %d bytes, pattern %d", NM[a], n, pat)) continue;
            Exact in(n); Bytes m = msg(n, pat); memcpy(in.p, m.data(), n);
            std::vector<size_t> ols; if (a < 2) { if (pat == 0) for (size_t o : {0, 1, 7, 8, 31, 32, 33, r - 1, r, r + 1, 2*r - 1, 2*r, 2*r + 1, 5*r}) ols.push_back(o); else ols = {40}; } else ols = {(size_t)DL[a]};
            for (size_t ol : ols) { Exact o(ol); r_one(a, o.p, ol, in.p, n); C.traces++; Bytes w = m_hash(a, m.data(), n, ol); if (memcmp(o.p, w.data(), ol)) { viol("%s of %d bytes, %zu output bytes, differs from FIPS 202", NM[a], n, ol); break; } }
            if (n && memcmp(in.p, m.data(), n)) viol("input modified"); } 
        for (int bit = 0; bit < 8*2*r; bit++) { if (!scn("%s one-shot, single bit %d", NM[a], bit)) continue; Bytes m(2*r + 5, 0); m[bit/8] = 1 << bit % 8; Bytes o(a < 2 ? 2*r : DL[a]); r_one(a, o.data(), o.size(), m.data(), m.size()); C.traces++; if (o != m_hash(a, m.data(), m.size(), o.size())) viol("%s with single bit %d differs from FIPS 202", NM[a], bit); }
        if (a < 2) for (size_t ol = 0; ol <= 3u*r + 2; ol++) { if (!scn("%s one-shot, %zu output bytes", NM[a], ol)) continue; Exact o(ol); Bytes m = msg(11, 0); r_one(a, o.p, ol, m.data(), 11); C.traces++; Bytes w = m_hash(a, m.data(), 11, ol); if (memcmp(o.p, w.data(), ol)) viol("%s, %zu output bytes, differs from FIPS 202", NM[a], ol); } }
}
/* every (position in block, absorb length) and every (left in block, squeeze length) */
static void e_splits(int step) {
    for (int a = 0; a < 5; a++) { const int r = RATE[a]; Bytes m = msg(6*r + 64, 3);
        for (int p = 0; p < r; p++) { if (!scn("%s absorbing from block position %d", NM[a], p)) continue;
            for (int n = 0; n <= 2*r + 2; n += (n < 10 || (n + p) % r < 10 || (n + p) % r > r - 10) ? 1 : step) {
                u64 c[64]; memset(c, G, sizeof c); r_init(a, c); if (p) r_abs(a, c, m.data(), p); Exact in(n); memcpy(in.p, &m[p], n); r_abs(a, c, in.p, n); r_abs(a, c, &m[p + n], 3);
                Bytes o(a < 2 ? 40 : DL[a]); r_fin(a, c, o.data()); if (a < 2) r_sqz(a, c, o.data(), 40); C.traces++;
                if (o != m_hash(a, m.data(), p + n + 3, o.size())) { viol("%s: %d, %d and 3 bytes absorbed in turn differ from FIPS 202", NM[a], p, n); break; } } }
        if (a < 2) for (int p = 0; p <= 2*r; p += p < r ? 1 : 13) { if (!scn("%s squeezing after %d bytes", NM[a], p)) continue;
            Bytes w = m_hash(a, m.data(), 50, 5*r + 64);
            for (int n = 0; n <= 2*r + 2; n += (n < 10 || (n + p) % r < 10 || (n + p) % r > r - 10) ? 1 : step) {
                u64 c[64]; r_init(a, c); r_abs(a, c, m.data(), 50); r_fin(a, c, nullptr); Bytes o(p + n + 20, G); Exact x(n); r_sqz(a, c, o.data(), p); r_sqz(a, c, x.p, n); memcpy(&o[p], x.p, n); r_sqz(a, c, &o[p + n], 20); C.traces++;
                if (memcmp(o.data(), w.data(), o.size())) { viol("%s: %d, %d and 20 bytes squeezed in turn differ from FIPS 202", NM[a], p, n); break; } } } }
}
/* every sequence of up to depth absorbs and squeezes over border sizes */
static void e_seqs(int depth) {
    for (int a = 0; a < 5; a++) { const int r = RATE[a]; const int sz[] = {0, 1, 8, r - 1, r, r + 1, 2*r, r/2}; const int ns = 8; Bytes m = msg(depth*2*r + 8, 0);
        u64 tot = 1; for (int i = 0; i < depth; i++) tot *= ns;
        for (u64 x = 0; x < tot; x++) for (int na = (a < 2 ? 0 : depth); na <= depth; na++) { if (!scn("%s, call pattern %llu with %d absorbs", NM[a], (unsigned long long)x, na)) continue;
            u64 c[64]; r_init(a, c); u64 y = x; size_t at = 0; for (int i = 0; i < na; i++, y /= ns) { r_abs(a, c, &m[at], sz[y % ns]); at += sz[y % ns]; }
            Bytes o(a < 2 ? 0 : DL[a]); r_fin(a, c, o.data()); if (a < 2) for (int i = na; i <= depth; i++, y /= ns) { int k = i == depth ? 9 : sz[y % ns]; size_t q = o.size(); o.resize(q + k + 1); r_sqz(a, c, &o[q], k); o.resize(q + k); }
            C.traces++; if (o != m_hash(a, m.data(), at, o.size())) viol("%s differs from FIPS 202", NM[a]); } }
}
/* every interleaving of two or three instances, with copies */
static void e_inter(int depth) {
    for (int pr = 0; pr < 6; pr++) { static const int PA[6][2] = {{0,0},{1,1},{2,2},{0,1},{3,4},{1,3}}; const int *al = PA[pr];
        u64 tot = 1; for (int i = 0; i < depth; i++) tot *= 9;
        for (u64 x = 0; x < tot; x++) {
            /* operations: 0-3 on A (absorb 3, absorb rate-1, finalise, squeeze 5), 4-7 on B, 8 copy A to B */
            int ph[2] = {0, 0}, k = 0; u64 y = x; for (; k < depth; k++, y /= 9) { int op = y % 9; if (op == 8) { if (al[0] != al[1]) break; ph[1] = ph[0]; continue; } int i = op/4; op &= 3; if (op < 2 && ph[i]) break; if (op == 2) { if (ph[i]) break; ph[i] = 1; } if (op == 3 && (!ph[i] || al[i] > 1)) break; }
            if (k < depth) continue;
            if (!scn("%s and %s interleaved, pattern %llu", NM[al[0]], NM[al[1]], (unsigned long long)x)) continue;
            u64 c[2][64], w[2][26]; for (int i = 0; i < 2; i++) { r_init(al[i], c[i]); ek_init(w[i]); ph[i] = 0; } Bytes m = msg(400, 0); y = x;
            for (k = 0; k < depth; k++, y /= 9) { int op = y % 9; if (op == 8) { memcpy(c[1], c[0], sizeof c[0]); memcpy(w[1], w[0], sizeof w[0]); ph[1] = ph[0]; continue; } int i = op/4, a = al[i]; op &= 3; u8 o1[200], o2[200];
                if (op < 2) { size_t n = op ? RATE[a] - 1 : 3; r_abs(a, c[i], &m[k], n); ek_absorb(w[i], a, &m[k], n); }
                else if (op == 2) { r_fin(a, c[i], o1); ek_finalize(w[i], a); ph[i] = 1; if (a > 1) { ek_squeeze(w[i], a, o2, DL[a]); if (memcmp(o1, o2, DL[a])) { viol("digest of instance %d wrong", i); break; } } }
                else { r_sqz(a, c[i], o1, 5); ek_squeeze(w[i], a, o2, 5); if (memcmp(o1, o2, 5)) { viol("output of instance %d wrong", i); break; } } }
            C.traces++; for (int i = 0; i < 2; i++) { u8 o1[64], o2[64]; int a = al[i]; if (!ph[i]) { r_fin(a, c[i], o1); ek_finalize(w[i], a); if (a > 1) { ek_squeeze(w[i], a, o2, DL[a]); if (memcmp(o1, o2, DL[a])) viol("final digest of instance %d wrong", i); continue; } } if (a < 2) { r_sqz(a, c[i], o1, 64); ek_squeeze(w[i], a, o2, 64); if (memcmp(o1, o2, 64)) viol("final output of instance %d wrong", i); } } } }
}
/* block-wise interface and clones */
static void e_blocks() {
    for (int a = 0; a < 2; a++) { const int r = RATE[a]; Bytes m = msg(5*r, 3);
        for (int n = 0; n <= 4*r; n++) { if (!scn("%s block-wise, %d bytes", NM[a], n)) continue; Bytes w = m_hash(a, m.data(), n, 6*r); Exact in(n); memcpy(in.p, m.data(), n);
            for (int x = 0; x < 4; x++) for (int y = 0; y < 3; y++) { u64 c[64]; memset(c, G, sizeof c); a ? shake256_absorb(c, in.p, n) : shake128_absorb(c, in.p, n); Bytes o((x + y + 1)*r, G); auto sq = a ? shake256_squeezeblocks : shake128_squeezeblocks; sq(o.data(), x, c);
                u64 d[64]; auto cl = a ? shake256_ctx_clone : shake128_ctx_clone; if (cl) { memset(d, 1, sizeof d); cl(d, c); } else memcpy(d, c, sizeof d); if (n & 1) { Bytes t(2*r); sq(t.data(), 2, c); } sq(&o[x*r], y, d); sq(&o[(x + y)*r], 1, d); C.transitions += 4; C.traces++;
                if (memcmp(o.data(), w.data(), o.size())) { viol("%s block-wise, %d bytes absorbed, %d then %d blocks, differs from FIPS 202", NM[a], n, x, y); x = 9; break; } } } }
}
/* every alignment, between guards */
static void e_align() {
    for (int a = 0; a < 5; a++) for (int ai = 0; ai < 33; ai++) for (int ao = 0; ao < 33; ao++) { if (!scn("%s input offset %d output offset %d", NM[a], ai, ao)) continue; const int r = RATE[a];
        for (int n : {1, 9, r - 1, r, 2*r + 3}) { Buf in(n, ai, 0), o(a < 2 ? r + 17 : DL[a], ao, 0x5A); Bytes m = msg(n, 0); memcpy(in.p, m.data(), n); size_t ol = a < 2 ? r + 17 : DL[a]; r_one(a, o.p, ol, in.p, n); u64 c[64]; C.traces++; Bytes w = m_hash(a, m.data(), n, ol); if (memcmp(o.p, w.data(), ol) || !o.intact() || !in.intact()) viol("%s of %d bytes wrong at this alignment", NM[a], n);
            r_init(a, c); r_abs(a, c, in.p, n); if (a < 2) { r_fin(a, c, nullptr); r_sqz(a, c, o.p, ol); } else r_fin(a, c, o.p); if (memcmp(o.p, w.data(), ol) || !o.intact()) viol("%s of %d bytes wrong incrementally at this alignment", NM[a], n); } }
}
/* one call above 2^31 and 2^32 bytes */
static void e_huge() {
    const size_t MAX = ((size_t)1 << 32) + 300; u8 *p = (u8 *)mmap(nullptr, MAX, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int a = 0; a < 5; a++) for (size_t n : {((size_t)1 << 31) + 77, ((size_t)1 << 32) + 201}) { if ((a == 0 || a == 3 || a == 4) && n < ((size_t)1 << 32)) continue; if (!scn("%s of %zu zero bytes in one call", NM[a], n)) continue;
        u64 c[64]; r_init(a, c); r_abs(a, c, p, n); Bytes o(a < 2 ? 40 : DL[a]); r_fin(a, c, o.data()); if (a < 2) r_sqz(a, c, o.data(), 40); C.traces++; if (o != m_hash(a, p, n, o.size())) viol("%s of %zu bytes differs from FIPS 202", NM[a], n); }
}
/* the stream interface used by the scheme: seeding with every length, every request split */
static void e_stream() {
    P = load_params(); const int a = P.xof(), r = RATE[a]; Bytes m = msg(300, 0);
    for (int n = 1; n <= 200; n++) { if (!scn("generator seeded with %d bytes", n)) continue; Bytes w = m_hash(a, m.data(), n, 3*r), o(3*r); g_xof(o.data(), 3*r, m.data(), n); C.transitions++; C.traces++; if (o != w) viol("generator seeded with %d bytes differs from the XOF", n); g_seed(m.data(), n); for (size_t i = 0, k = 0; i < o.size(); i += k) { k = std::min(o.size() - i, (i*7 + n) % 41); if (!k) k = 1; g_random(&o[i], k); } C.transitions++; if (o != w) viol("system stream seeded with %d bytes differs from the XOF", n); }
    for (int x = 0; x <= 2*r; x++) { if (!scn("system stream, request after %d bytes", x)) continue; Bytes w = m_hash(a, m.data(), 48, 5*r); for (int y = 0; y <= 2*r; y += y < 40 ? 1 : 11) { g_seed(m.data(), 48); Bytes o(x + y + 9); g_random(o.data(), x); g_random(&o[x], y); g_random(&o[x + y], 9); C.transitions += 3; C.traces++; if (memcmp(o.data(), w.data(), o.size())) { viol("system stream divided %d, %d, 9 differs", x, y); break; } } }
}
/* oracle validation: prints model digests for comparison with another implementation */
static void e_dump() {
    for (int a = 0; a < 5; a++) for (int n : {0, 1, 71, 72, 103, 104, 135, 136, 137, 167, 168, 169, 400}) { Bytes m = msg(n, 0), o = m_hash(a, m.data(), n, a < 2 ? 400 : DL[a]); printf("ORACLE %d %d ", a, n); for (u8 b : o) printf("%02x", b); printf("\n"); }
    scn("dump"); C.traces += 65;
}
int main(int argc, char **argv) {
    h_init(argc, argv); env_mode = 0; std::string c = argv[1]; int a = argc > 2 ? atoi(argv[2]) : 1;
    if (c == "oneshot") e_oneshot(); else if (c == "splits") e_splits(a); else if (c == "seqs") e_seqs(a); else if (c == "inter") e_inter(a); else if (c == "blocks") e_blocks(); else if (c == "align") e_align(); else if (c == "huge") e_huge(); else if (c == "stream") e_stream(); else if (c == "dump") e_dump(); else return 2;
    return h_finish();
}
