/* P31: the bundled AVX2 assembly Keccak against an independent one.  The state is opaque (it is kept permuted):
 * it is written and read through the byte interface only. */
#include "hcommon.hpp"
extern "C" {
void g_info(struct g_params *) {}
/* widths as passed in registers: the assembly uses the full registers for its unsigned arguments */
void KeccakP1600_Initialize(void *); void KeccakP1600_AddByte(void *, size_t, size_t); void KeccakP1600_AddBytes(void *, const u8 *, size_t, size_t); void KeccakP1600_OverwriteBytes(void *, const u8 *, size_t, size_t);
void KeccakP1600_OverwriteWithZeroes(void *, size_t); void KeccakP1600_ExtractBytes(const void *, u8 *, size_t, size_t); void KeccakP1600_ExtractAndAddBytes(const void *, const u8 *, u8 *, size_t, size_t);
void KeccakP1600_Permute_24rounds(void *); void KeccakP1600_Permute_12rounds(void *); void KeccakP1600_Permute_Nrounds(void *, size_t);
size_t KeccakF1600_FastLoop_Absorb(void *, size_t, const u8 *, size_t); size_t KeccakP1600_12rounds_FastLoop_Absorb(void *, size_t, const u8 *, size_t);
}
/* FIPS 202, section 3, from the definitions */
static u64 rol(u64 x, int n) { return n ? x << n | x >> (64 - n) : x; }
static int rc_bit(int t) { u8 r = 1; for (int i = 0; i < t % 255; i++) r = (u8)(r << 1 ^ (r >> 7 ? 0x71 : 0)); return r & 1; }
static void spec(u64 A[25], int nr) {
    static u64 RC[24]; static int R[25]; static bool ready = false;
    if (!ready) { for (int i = 0; i < 24; i++) for (int j = 0; j <= 6; j++) if (rc_bit(j + 7*i)) RC[i] |= 1ull << ((1 << j) - 1); int x = 1, y = 0; for (int t = 0; t < 24; t++) { R[x + 5*y] = (t + 1)*(t + 2)/2 % 64; int n = (2*x + 3*y) % 5; x = y; y = n; } ready = true; }
    for (int r = 24 - nr; r < 24; r++) { u64 Cc[5], B[25];
        for (int x = 0; x < 5; x++) Cc[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
        for (int x = 0; x < 5; x++) { u64 d = Cc[(x + 4) % 5] ^ rol(Cc[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) A[x + 5*y] ^= d; }
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y + 5*((2*x + 3*y) % 5)] = rol(A[x + 5*y], R[x + 5*y]);
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5*y] = B[x + 5*y] ^ (~B[(x + 1) % 5 + 5*y] & B[(x + 2) % 5 + 5*y]);
        A[0] ^= RC[r]; } }
/* the state between guard bytes, and a byte-exact copy */
struct Pair { alignas(64) u8 mem[64 + 200 + 64]; u8 *s; u8 m[200];
    Pair() { memset(mem, 0xA5, sizeof mem); s = mem + 64; KeccakP1600_Initialize(s); memset(m, 0, 200); }
    void load(const u8 *b) { KeccakP1600_Initialize(s); KeccakP1600_AddBytes(s, b, 0, 200); memcpy(m, b, 200); }
    void perm(int nr) { u64 A[25]; memcpy(A, m, 200); spec(A, nr); memcpy(m, A, 200); }
    void same(const char *what) { u8 o[202]; memset(o, 0x77, sizeof o); KeccakP1600_ExtractBytes(s, o, 0, 200); C.transitions++;
        for (int i = 0; i < 200; i++) if (o[i] != m[i]) { viol("%s: byte %d of the state is %02x, specified %02x", what, i, o[i], m[i]); return; }
        if (o[200] != 0x77 || o[201] != 0x77) viol("%s: extraction wrote past its output", what);
        for (int i = 0; i < 64; i++) if (mem[i] != 0xA5 || mem[264 + i] != 0xA5) { viol("%s: wrote outside the state", what); return; } } };
static void base(u8 *b, u64 s) { Prng r(s); r.fill(b, 200); }
/* input that ends, output that ends, at an inaccessible page */
struct Edge { u8 *p; size_t n; Edge(size_t pages) { n = pages*4096; p = (u8 *)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + n, 4096, PROT_NONE); } u8 *end(size_t k) { return p + n - k; } };
static void perms() {
    u8 b[200];
    for (int i = -1; i < 1600; i++) for (int inv = 0; inv < 2; inv++) { if (!scn("permutation of the state with %s bit %d", inv ? "all but" : "only", i)) continue;
        memset(b, inv ? 255 : 0, 200); if (i >= 0) b[i/8] ^= 1 << i % 8; Pair p;
        p.load(b); KeccakP1600_Permute_24rounds(p.s); p.perm(24); p.same("24 rounds"); KeccakP1600_Permute_24rounds(p.s); p.perm(24); p.same("24 rounds twice");
        p.load(b); KeccakP1600_Permute_12rounds(p.s); p.perm(12); p.same("12 rounds");
        for (int nr = 1; nr <= 24; nr++) { p.load(b); KeccakP1600_Permute_Nrounds(p.s, nr); p.perm(nr); p.same("n rounds"); } C.traces++; }
    for (int i = 0; i < (C.tier ? 200000 : 5000); i++) { if (!scn("permutation chain %d", i)) continue; Pair p; base(b, i); p.load(b); for (int k = 0; k < 4; k++) { KeccakP1600_Permute_24rounds(p.s); p.perm(24); } p.same("chain"); C.traces++; }
    for (int off = 0; off < 64; off += 8) { if (!scn("state at offset %d", off)) continue; alignas(64) static u8 raw[512]; u8 o[200]; memset(raw, 0x5A, 512); u8 *s = raw + 64 + off; base(b, off); KeccakP1600_Initialize(s); KeccakP1600_AddBytes(s, b, 0, 200); KeccakP1600_Permute_24rounds(s); KeccakP1600_ExtractBytes(s, o, 0, 200);
        u64 A[25]; memcpy(A, b, 200); spec(A, 24); if (memcmp(A, o, 200)) viol("wrong permutation at alignment %d", off); for (int i = 0; i < 64 + off; i++) if (raw[i] != 0x5A) viol("wrote before the state"); for (int i = 264 + off; i < 512; i++) if (raw[i] != 0x5A) viol("wrote after the state"); C.transitions++; } }
static void bytes() {
    Edge in(1), out(1); u8 b[200], d[200], o[256];
    for (int off = 0; off <= 200; off++) { if (!scn("all ranges of the state from byte %d", off)) continue;
        for (int len = 0; off + len <= 200; len++) { base(b, off*1000 + len); base(d, 7*off + len + 999983); u8 *src = in.end(len), *dst = out.end(len); memcpy(src, d, len); Pair p;
            p.load(b); KeccakP1600_AddBytes(p.s, src, off, len); for (int i = 0; i < len; i++) p.m[off + i] ^= d[i]; p.same("AddBytes");
            p.load(b); KeccakP1600_OverwriteBytes(p.s, src, off, len); memcpy(p.m + off, d, len); p.same("OverwriteBytes");
            p.load(b); memset(dst - 8, 0x33, len + 8); KeccakP1600_ExtractBytes(p.s, dst, off, len); if (memcmp(dst, b + off, len)) viol("ExtractBytes of %d bytes at %d is wrong", len, off); for (int i = 1; i <= 8; i++) if (dst[-i] != 0x33) viol("ExtractBytes wrote before its output");
            memset(dst, 0x33, len); KeccakP1600_ExtractAndAddBytes(p.s, src, dst, off, len); for (int i = 0; i < len; i++) if (dst[i] != (u8)(b[off + i] ^ d[i])) { viol("ExtractAndAddBytes of %d bytes at %d is wrong", len, off); break; } p.same("extraction");
            memset(o, 0x33, sizeof o); KeccakP1600_ExtractBytes(p.s, o + 16, off, len); for (int i = 0; i < 16; i++) if (o[i] != 0x33 || o[16 + len + i] != 0x33) { viol("ExtractBytes of %d bytes at %d wrote outside its output", len, off); break; }
            memset(o, 0x33, sizeof o); KeccakP1600_ExtractAndAddBytes(p.s, src, o + 16, off, len); for (int i = 0; i < 16; i++) if (o[i] != 0x33 || o[16 + len + i] != 0x33) { viol("ExtractAndAddBytes of %d bytes at %d wrote outside its output", len, off); break; }
            C.traces += 4; }
        Pair p; base(b, off); p.load(b); KeccakP1600_OverwriteWithZeroes(p.s, off); memset(p.m, 0, off); p.same("OverwriteWithZeroes");
        if (off < 200) for (int v = 0; v < 256; v++) { p.load(b); KeccakP1600_AddByte(p.s, v, off); p.m[off] ^= v; p.same("AddByte"); } } }
static void absorb() {
    Edge in(C.tier ? 8 : 2); u8 b[200];
    for (unsigned lanes = 1; lanes <= 25; lanes++) for (int extra = 0; extra < (C.tier ? 200 : 24); extra++) for (int blocks = 0; blocks <= (C.tier ? 5 : 3); blocks++) { size_t len = (size_t)lanes*8*blocks + extra; if (extra >= (int)lanes*8) continue; if (!scn("absorbing %zu bytes in blocks of %u lanes", len, lanes)) continue;
        u8 *src = in.end(len); Prng r(len*31 + lanes); r.fill(src, len); base(b, len);
        for (int tw = 0; tw < 2; tw++) { Pair p; p.load(b); size_t n = (tw ? KeccakP1600_12rounds_FastLoop_Absorb : KeccakF1600_FastLoop_Absorb)(p.s, lanes, src, len);
            if (n != (size_t)lanes*8*blocks) viol("absorbed %zu of %zu bytes in blocks of %u lanes", n, len, lanes);
            for (int k = 0; k < blocks; k++) { for (unsigned i = 0; i < lanes*8; i++) p.m[i] ^= src[k*lanes*8 + i]; p.perm(tw ? 12 : 24); }
            p.same("fast absorption"); C.traces++; } } }
/* every sequence of operations up to a depth */
static void seqs() { int D = C.tier ? 6 : 5; long n = 1; for (int i = 0; i < D; i++) n *= 8; u8 d[200], o[200]; base(d, 77);
    for (long c = 0; c < n; c++) { if (!scn("operation sequence %lo", c)) continue; Pair p; long t = c; for (int i = 0; i < D; i++, t >>= 3) { switch (t & 7) {
        case 0: KeccakP1600_Permute_24rounds(p.s); p.perm(24); break; case 1: KeccakP1600_Permute_12rounds(p.s); p.perm(12); break; case 2: KeccakP1600_AddBytes(p.s, d + i, 3, 140); for (int j = 0; j < 140; j++) p.m[3 + j] ^= d[i + j]; break;
        case 3: KeccakP1600_AddByte(p.s, 0x1f, 135 + i); p.m[135 + i] ^= 0x1f; break; case 4: KeccakP1600_OverwriteWithZeroes(p.s, 72 + i); memset(p.m, 0, 72 + i); break; case 5: KeccakP1600_OverwriteBytes(p.s, d, 11, 17); memcpy(p.m + 11, d, 17); break;
        case 6: KeccakF1600_FastLoop_Absorb(p.s, 17, d, 137 + i); for (int j = 0; j < 136; j++) p.m[j] ^= d[j]; p.perm(24); break; case 7: KeccakP1600_ExtractBytes(p.s, o, 5, 100); if (memcmp(o, p.m + 5, 100)) viol("extraction in a sequence"); break; } } p.same("sequence"); C.traces++; } }
/* the other half of the binding: the independent Keccak used by all other checks */
static void oracle() { for (int i = 0; i < 300; i++) { if (!scn("agreement of the two independent permutations, input of %d bytes", i)) continue; Bytes m = Prng(i).bytes(i); u8 a[136]; u64 A[25] = {}; u8 *q = (u8 *)A; size_t at = 0; for (u8 x : m) { q[at++] ^= x; if (at == 136) { spec(A, 24); at = 0; } } q[at] ^= 0x1f; q[135] ^= 0x80; spec(A, 24);
        u64 k[26]; ek_init(k); ek_absorb(k, ALG_SHAKE256, m.data(), m.size()); ek_finalize(k, ALG_SHAKE256); ek_squeeze(k, ALG_SHAKE256, a, 136); if (memcmp(a, q, 136)) { printf("DISAGREE\n"); viol("the two independent permutations disagree"); } C.transitions++; } }
int main(int argc, char **argv) { h_init(argc, argv); std::string c = argv[1];
    if (c == "perms") perms(); else if (c == "bytes") bytes(); else if (c == "absorb") absorb(); else if (c == "seqs") seqs(); else if (c == "oracle") oracle(); else return 2; return h_finish(); }
