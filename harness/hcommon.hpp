/* Harness base: scenario bookkeeping, violation reports, crash/timeout context,
 * scripted randomness builders. */
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <map>
#include <set>
#include <functional>
#include "env.h"
#include "glue.h"
#include "model.hpp"
using namespace model;

/* ---------- bookkeeping ---------- */
struct Ctx {
    u64 scenarios = 0, states = 0, transitions = 0, traces = 0, viols = 0, samples = 0, failed = 0, lastfail = ~0ull;
    long shard = 0, nshards = 1, only = -1, every = 1; int tier = 0, scn_cpu_limit = 60;
    char *cur = nullptr; const char *prop = "?"; u64 scn_id = 0; std::map<std::string, u64> extra;
    struct timeval t0;
};
static Ctx C;
static void on_timer(int) {
    char b[400]; int n = snprintf(b, sizeof b, "\nVIOL scenario=%llu exceeded its CPU limit of %d s (non-termination?): %s\n", (unsigned long long)C.scn_id, C.scn_cpu_limit, C.cur);
    if (write(1, b, n)) {}
    _exit(3);
}
static void arm() { struct itimerval it = {}; it.it_value.tv_sec = C.scn_cpu_limit; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
static void h_init(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (const char *s = getenv("H_SHARD")) { C.shard = atol(s); C.nshards = atol(strchr(s, '/') + 1); }
    if (const char *s = getenv("H_EVERY")) C.every = atol(s);
    if (const char *s = getenv("H_ONLY")) C.only = atol(s);
    if (const char *s = getenv("H_TIER")) C.tier = !strcmp(s, "thorough");
    if (const char *s = getenv("H_CPU")) C.scn_cpu_limit = atoi(s);
    const char *cf = getenv("H_CUR");
    if (cf) { int fd = open(cf, O_RDWR | O_CREAT, 0600); if (fd >= 0 && !ftruncate(fd, 4096)) C.cur = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
    if (!C.cur || C.cur == MAP_FAILED) C.cur = (char *)calloc(1, 4096);
    signal(SIGVTALRM, on_timer); gettimeofday(&C.t0, nullptr);
    (void)argc; (void)argv;
}
/* starts scenario number C.scenarios; false if another shard does it */
__attribute__((format(printf, 1, 2))) static bool scn(const char *fmt, ...) {
    u64 id = C.scenarios++;
    if (C.only >= 0 ? (long)id != C.only : (id % C.every || (long)(id / C.every % C.nshards) != C.shard)) return false;
    C.scn_id = id; C.states++;
    int n = snprintf(C.cur, 64, "#%llu ", (unsigned long long)id);
    va_list ap; va_start(ap, fmt); vsnprintf(C.cur + n, 2000, fmt, ap); va_end(ap);
    if ((id & 63) == 0 || C.scn_cpu_limit < 1000000) arm();
    if (C.samples < 3 && (id % 97 == (u64)C.shard % 97)) { C.samples++; printf("SAMPLE %s\n", C.cur); }
    return true;
}
static bool h_cross() { static const bool x = getenv("H_CROSS") != nullptr; return x; }
static int h_finish() {
    struct itimerval it = {}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    struct timeval t1; gettimeofday(&t1, nullptr);
    printf("STAT scenarios_total=%llu states=%llu transitions=%llu traces=%llu violations=%llu failed=%llu ms=%ld", (unsigned long long)C.scenarios, (unsigned long long)C.states, (unsigned long long)C.transitions,
        (unsigned long long)C.traces, (unsigned long long)C.viols, (unsigned long long)C.failed, (t1.tv_sec - C.t0.tv_sec)*1000L + (t1.tv_usec - C.t0.tv_usec)/1000);
    for (auto &e : C.extra) printf(" %s=%llu", e.first.c_str(), (unsigned long long)e.second);
    printf("\nDONE\n"); return 0;
}
__attribute__((format(printf, 1, 2))) static void viol(const char *fmt, ...) {
    if (h_cross() && strncmp(fmt, "cross:", 6)) return;       /* several implementations side by side: only their differences count */
    C.viols++; if (C.lastfail != C.scn_id) { C.lastfail = C.scn_id; C.failed++; }
    if (C.viols > 5) { if (C.viols > 200) { h_finish(); fflush(stdout); _exit(0); } return; }
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("VIOL scenario=%llu %s [scenario %s]\n", (unsigned long long)C.scn_id, b, C.cur);
}
extern "C" __attribute__((weak)) void cross_report(const char *s) { viol("cross: %s", s); }

/* ---------- parameters of the build under test ---------- */
static Params P; static g_params GP;
static Params load_params() {
    g_info(&GP); Params p; p.cat = GP.cat; p.N = GP.n; p.K = GP.k; p.T = GP.t; p.W = GP.w; p.NK = GP.nk;
    p.SEED = GP.seedlen; p.MAXPUB = GP.maxpub; p.permbits = bits_for(p.N); return p;
}

/* ---------- deterministic pseudo-random bytes for base data ---------- */
struct Prng { u64 s; Prng(u64 x) : s(x*0x9E3779B97F4A7C15ULL + 0x1234567) {}
    u64 next() { s += 0x9E3779B97F4A7C15ULL; u64 z = s; z = (z ^ z >> 30)*0xBF58476D1CE4E5B9ULL; z = (z ^ z >> 27)*0x94D049BB133111EBULL; return z ^ z >> 31; }
    u32 below(u32 n) { return (u32)(next() % n); }
    void fill(u8 *o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = (u8)next(); }
    Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; } };

/* ---------- script builders ---------- */
static void put64(Bytes &b, u64 w) { for (int i = 0; i < 8; i++) b.push_back((u8)(w >> 8*i)); }
static void put32(Bytes &b, u32 w) { for (int i = 0; i < 4; i++) b.push_back((u8)(w >> 8*i)); }
static void put16(Bytes &b, u32 w) { b.push_back((u8)w); b.push_back((u8)(w >> 8)); }
/* the stream of raw 7-bit fields (9 per 64-bit word) */
static void enc_fields(Bytes &b, const Bytes &fields) {
    for (size_t i = 0; i < fields.size(); i += 9) { u64 w = 0; for (size_t f = 0; f < 9 && i + f < fields.size(); f++) w |= (u64)(fields[i+f] & 127) << 7*f; w |= (u64)1 << 63; put64(b, w); }
}
/* one call of the range sampler yielding exactly these values (min lo) */
static void enc_range(Bytes &b, const u8 *v, size_t n, int lo) { Bytes f(n); for (size_t i = 0; i < n; i++) f[i] = (u8)(v[i] - lo); enc_fields(b, f); }
static Bytes enc_code(const Params &p, const Mat &g) { Bytes b; for (int i = 0; i < p.K; i++) enc_range(b, g.row(i) + p.K, p.N - p.K, 0); return b; }
static void enc_shuffle(Bytes &b, const std::vector<u16> &perm) {
    int n = (int)perm.size(); std::vector<u16> cur(n); std::iota(cur.begin(), cur.end(), 0);
    std::vector<int> where(n); std::iota(where.begin(), where.end(), 0);
    for (int i = 0; i < n; i++) {
        int j = where[perm[i]]; put32(b, i + 1 < n ? (u32)(j - i) : 0u);
        std::swap(cur[i], cur[j]); where[cur[i]] = i; where[cur[j]] = j;
    }
}
static Bytes enc_mono(const Mono &m) { Bytes b; enc_range(b, m.coef.data(), m.coef.size(), 1); enc_shuffle(b, m.perm); return b; }
/* draws that produce the challenge vector f, in the given order of positions */
static Bytes enc_challenge(const Params &p, const Bytes &f, bool reverse = false) {
    Bytes b; int vb = bits_for(p.NK - 1);
    for (int k = 0; k < p.T; k++) { int i = reverse ? p.T - 1 - k : k; if (f[i]) put16(b, f[i] | (u32)i << vb); }
    return b;
}
static std::string hex(const u8 *b, size_t n) { std::string s; char t[3]; for (size_t i = 0; i < n && i < 24; i++) { snprintf(t, 3, "%02x", b[i]); s += t; } if (n > 24) s += ".."; return s; }
static std::string show(const Bytes &f) { std::string s; size_t nz = 0; for (size_t i = 0; i < f.size(); i++) if (f[i] && nz++ < 40) { s += (s.empty() ? "" : " ") + std::to_string(i) + ":" + std::to_string(f[i]); } return s; }

/* message / key buffers at exact size with canaries (or exact heap blocks under ASan) */
/* H_EXACT: the block ends exactly where the buffer ends (and starts with it at offset 0), for sanitizers */
static bool buf_exact() { static const bool e = getenv("H_EXACT") != nullptr; return e; }
struct Buf { u8 *base, *p; size_t n, pre; bool ex; Bytes guard;
    Buf(size_t n_, size_t align_off = 0, int fill = 0xA5) : n(n_), ex(buf_exact()) {
        pre = (ex ? 0 : 64) + align_off; size_t tot = pre + n + (ex ? 0 : 64); void *b = nullptr; if (posix_memalign(&b, 64, tot)) abort(); base = (u8 *)b;
        for (size_t i = 0; i < tot; i++) base[i] = (i < pre || i >= pre + n) ? (u8)(0x5A ^ i) : (u8)fill;
        p = base + pre; }
    bool intact() const { for (size_t i = 0; i < pre; i++) if (base[i] != (u8)(0x5A ^ i)) return false; if (!ex) for (size_t i = pre + n; i < pre + n + 64; i++) if (base[i] != (u8)(0x5A ^ i)) return false; return true; }
    ~Buf() { free(base); } Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete; };
/* exact heap block: any access outside is a sanitizer report */
struct Exact { u8 *p; size_t n; Exact(size_t n_, int fill = 0xA5) : n(n_) { p = (u8 *)malloc(n ? n : 1); if (n == 0) { free(p); p = (u8 *)malloc(0); } memset(p, fill, n); }
    ~Exact() { free(p); } Exact(const Exact &) = delete; Exact &operator=(const Exact &) = delete; };
