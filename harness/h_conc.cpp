/* Concurrent openings.
 *
 * 1. Each opening runs alone, as the first call of a fresh process (fork), on its
 *    own thread; the compiler's access instrumentation (-fsanitize=thread, with the
 *    hooks below instead of the race detector's runtime) reports every load and
 *    store, and those outside the thread's own stack and output are recorded.
 * 2. Two openings whose recorded accesses do not conflict (same byte, at least one
 *    store) are independent: every interleaving, at any granularity and with any
 *    number of such openings, is equivalent to running them one after the other.
 * 3. Otherwise schedules are enumerated: both run under a baton-passing scheduler
 *    in a fresh process, with up to two preemptions placed at conflicting accesses.
 * 4. Independently of the instrumentation, schedules with up to two preemptions at
 *    calls into the hash are enumerated.
 * A violation is a verdict or message that differs from the model's. */
#include "scheme.hpp"
#include <pthread.h>
#include <sys/wait.h>
#include <unordered_map>
#include <unordered_set>
#include <atomic>
#include <dlfcn.h>
namespace scenarios {                                     /* the explorers of h_scheme.cpp and h_open.cpp as sources of openings */
#define main main_scheme
#include "h_scheme.cpp"
#undef main
namespace openings {
#define main main_open
#include "h_open.cpp"
#undef main
}
}

static const size_t STK = 24u << 20;
struct Range { uintptr_t lo, hi; bool has(uintptr_t a) const { return a >= lo && a < hi; } };
struct Th { Range stack, out, outlen; int id; };
static thread_local Th *me = nullptr;
static int mode = 0;                                   /* 0 off, 1 record, 2 schedule at accesses, 3 schedule at hash calls */
static std::unordered_map<uintptr_t, u16> *rec;        /* 8-byte granule -> read mask | write mask << 8 */
static unsigned long naccess, nshared;
static std::unordered_map<uintptr_t, u8> *confl;        /* granule -> byte mask */
static void point();
static inline void access(const void *p, size_t n, bool w) {
    Th *t = me; if (!t || mode == 0 || mode == 3 || !n) return;
    uintptr_t a = (uintptr_t)p; naccess++;
    if (t->stack.has(a) || t->out.has(a) || t->outlen.has(a)) return;
    me = nullptr; nshared++;
    if (mode == 1) { for (uintptr_t b = a; b < a + n; ) { uintptr_t g = b & ~(uintptr_t)7; u8 m = 0; while (b < a + n && (b & ~(uintptr_t)7) == g) { m |= 1 << (b & 7); b++; } (*rec)[g] |= w ? (u16)m << 8 : m; } me = t; return; }
    bool hit = false;
    for (uintptr_t g = a & ~(uintptr_t)7; g < a + n && !hit; g += 8) { auto f = confl->find(g); if (f != confl->end()) for (int k = 0; k < 8; k++) if (f->second >> k & 1 && g + k >= a && g + k < a + n) hit = true; }
    me = t; if (hit) point();
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { access((const void *)p, b/8, false); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##b##_store(volatile T *p, T v, int) { access((const void *)p, b/8, true); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { access((const void *)p, b/8, true); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { access((const void *)p, b/8, true); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { access((const void *)p, b/8, true); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { access((const void *)p, b/8, true); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { access((const void *)p, b/8, true); return __atomic_fetch_and(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((const void *)p, b/8, true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { access((const void *)p, b/8, true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }
}

/* ---- requests ---- */
struct Req { std::string name; const Bytes *pk, *sm; int verdict; Bytes msg; };
static std::vector<Req> reqs; static std::vector<Bytes *> keep;
static const Bytes *hold(const Bytes &b) { keep.push_back(new Bytes(b)); return keep.back(); }

/* ---- scheduler: baton passing ---- */
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int turn, alive[3], nth; static long npoints[3]; static std::vector<long> plan; static size_t planpos; static long sincesw;
static int nextof(int i) { for (int k = 1; k <= nth; k++) { int j = (i + k) % nth; if (alive[j] && j != i) return j; } return i; }
static void point() {                                   /* the current thread reached a scheduling point */
    Th *t = me; if (!t || mode < 2) return;
    me = nullptr; npoints[t->id]++; sincesw++;
    if (planpos < plan.size() && sincesw == plan[planpos]) {
        planpos++; int to = nextof(t->id);
        if (to != t->id) { pthread_mutex_lock(&mx); sincesw = 0; turn = to; pthread_cond_broadcast(&cv); while (turn != t->id) pthread_cond_wait(&cv, &mx); pthread_mutex_unlock(&mx); }
    }
    me = t;
}
static void hash_hook() { if (mode == 3) point(); }
struct Job { Th th; const Req *r; int rc; unsigned long long mlen; u8 *m; };
static void *body(void *a) {
    Job *j = (Job *)a;
    if (mode >= 2) { pthread_mutex_lock(&mx); while (turn != j->th.id) pthread_cond_wait(&cv, &mx); pthread_mutex_unlock(&mx); }
    me = &j->th; j->rc = g_open(j->m, &j->mlen, j->r->sm->data(), j->r->sm->size(), j->r->pk->data()); me = nullptr;
    if (mode >= 2) { pthread_mutex_lock(&mx); alive[j->th.id] = 0; sincesw = 0; turn = nextof(j->th.id); pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mx); }
    return nullptr;
}
static u8 *stacks[3]; static u8 *outs[3];
static void start_thread(pthread_t &t, Job &j, int id, const Req &r) {
    j.r = &r; j.rc = 99; j.mlen = 77; j.m = outs[id]; j.th.id = id; j.th.stack = {(uintptr_t)stacks[id], (uintptr_t)stacks[id] + STK};
    j.th.out = {(uintptr_t)outs[id], (uintptr_t)outs[id] + r.sm->size()}; j.th.outlen = {(uintptr_t)&j.mlen, (uintptr_t)(&j.mlen + 1)};
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stacks[id], STK);
    if (pthread_create(&t, &at, body, &j)) { fprintf(stderr, "harness: thread\n"); _exit(9); }
}
/* shared result area */
struct Shared { long ok; char msg[400]; long points[3]; int rc; unsigned long long mlen; unsigned long digests; u8 digest[64]; unsigned long acc, shr, ng; struct { uintptr_t g; u16 m; } gr[1 << 18]; };
static Shared *sh;
static int child_cpu = 60; static double solo_ms;      /* limit for one execution, set from the time of the solitary runs */
static bool in_child(const std::function<void()> &f, const char *what) {
    sh->ok = 0; sh->msg[0] = 0; fflush(stdout); pid_t p = fork(); if (p < 0) { fprintf(stderr, "harness: fork\n"); exit(9); }
    if (!p) { struct itimerval it = {}; it.it_value.tv_sec = child_cpu; signal(SIGVTALRM, SIG_DFL); setitimer(ITIMER_VIRTUAL, &it, nullptr); alarm(300); f(); sh->ok = 1; _exit(0); }
    int st; waitpid(p, &st, 0);
    if (!sh->ok) { if (WIFEXITED(st) && WEXITSTATUS(st) == 9) exit(9); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) viol("%s: exceeded %d s of CPU time, alone an opening takes %.0f ms (non-termination?)", what, child_cpu, solo_ms); else viol("%s: process ended with status %x", what, st); return false; }
    if (sh->msg[0]) { viol("%s", sh->msg); return false; }
    return true;
}
static void judge(const Job &j, const char *how) {
    const Req &r = *j.r;
    if ((j.rc == 0) != (r.verdict == ACCEPT)) snprintf(sh->msg, sizeof sh->msg, "%s: thread %d, opening '%s', returned %d, alone it has verdict %d", how, j.th.id, r.name.c_str(), j.rc, r.verdict);
    else if (j.rc == 0 && (j.mlen != r.msg.size() || (j.mlen && memcmp(j.m, r.msg.data(), j.mlen)))) snprintf(sh->msg, sizeof sh->msg, "%s: thread %d, opening '%s', returned another message", how, j.th.id, r.name.c_str());
}
/* run the requests under a plan (points between switches) in a fresh process */
static bool run_plan(const std::vector<int> &rq, const std::vector<long> &pl, int m, long *np) {
    std::string how = "plan"; for (long p : pl) how += " " + std::to_string(p); how += m == 2 ? " (at conflicting accesses)" : " (at hash calls)";
    bool ok = in_child([&] {
        mode = m; plan = pl; planpos = 0; sincesw = 0; nth = (int)rq.size(); turn = 0; for (int i = 0; i < nth; i++) alive[i] = 1, npoints[i] = 0;
        Bytes before(g_rng_size()), after(g_rng_size()); g_rng_get(before.data());
        std::vector<Job> js(rq.size()); std::vector<pthread_t> ts(rq.size());
        for (size_t i = 0; i < rq.size(); i++) start_thread(ts[i], js[i], (int)i, reqs[rq[i]]);
        for (auto t : ts) pthread_join(t, nullptr);
        mode = 0; g_rng_get(after.data()); for (auto &j : js) judge(j, how.c_str());
        if (before != after) snprintf(sh->msg, sizeof sh->msg, "%s: opening changed the system random stream", how.c_str());
        for (int i = 0; i < nth; i++) sh->points[i] = npoints[i];
    }, how.c_str());
    C.transitions++; if (np) for (size_t i = 0; i < rq.size(); i++) np[i] = sh->points[i];
    return ok;
}
typedef std::unordered_map<uintptr_t, u16> Acc;
static std::vector<Acc> solo;
static bool record(int i) {
    struct timeval a0, a1; gettimeofday(&a0, nullptr);
    bool ok = in_child([&] {
        rec = new Acc; mode = 1; Bytes before(g_rng_size()), after(g_rng_size()); g_rng_get(before.data());
        Job j; pthread_t t; start_thread(t, j, 0, reqs[i]); pthread_join(t, nullptr); mode = 0; g_rng_get(after.data()); sh->rc = j.rc; sh->mlen = j.mlen; sh->digests = env_digests; memcpy(sh->digest, env_last_digest, 64); if (reqs[i].verdict >= 0) judge(j, "alone");
        if (before != after) snprintf(sh->msg, sizeof sh->msg, "opening changed the system random stream");
        sh->acc = naccess; sh->shr = nshared; sh->ng = 0; for (auto &e : *rec) { if (sh->ng >= sizeof sh->gr/sizeof sh->gr[0]) break; sh->gr[sh->ng].g = e.first; sh->gr[sh->ng++].m = e.second; }
        if (sh->ng >= sizeof sh->gr/sizeof sh->gr[0]) { fprintf(stderr, "harness: access table full\n"); _exit(9); }
    }, reqs[i].name.c_str());
    gettimeofday(&a1, nullptr); solo_ms = std::max(solo_ms, (a1.tv_sec - a0.tv_sec)*1e3 + (a1.tv_usec - a0.tv_usec)/1e3); Acc a; if (ok) for (unsigned long k = 0; k < sh->ng; k++) a[sh->gr[k].g] = sh->gr[k].m;
    solo.push_back(a); C.extra["accesses_recorded"] += sh->acc; C.extra["accesses_outside_own_stack"] += sh->shr; C.extra["shared_granules"] = std::max<u64>(C.extra["shared_granules"], a.size());
    return ok;
}
static std::vector<long> pick(long n, long cap) {       /* all of 1..n, or both ends and a stride */
    std::vector<long> r; if (n <= cap) { for (long i = 1; i <= n; i++) r.push_back(i); return r; }
    std::set<long> s; for (long i = 1; i <= cap/4; i++) { s.insert(i); s.insert(n + 1 - i); } for (long k = 0; k < cap/2; k++) s.insert(1 + (long)((double)k*(n-1)/(cap/2 - 1)));
    return std::vector<long>(s.begin(), s.end());
}
static void enumerate(const std::vector<int> &rq, int m, long cap1, long cap2) {
    long n[3] = {0, 0, 0}; if (!run_plan(rq, {}, m, n)) return;      /* sequential: counts the points */
    const u64 v0 = C.viols;
    for (long p : pick(n[0], cap1)) { if (!run_plan(rq, {p}, m, nullptr) && C.viols > v0) return; }
    for (long p : pick(n[0], cap2)) for (long q : pick(n[1], cap2)) if (!run_plan(rq, {p, q}, m, nullptr) && C.viols > v0) return;
    if (rq.size() > 2) for (long p : pick(n[0], cap2/2)) for (long q : pick(n[1], cap2/2)) for (long r : pick(n[2], cap2/2)) if (!run_plan(rq, {p, q, r}, m, nullptr) && C.viols > v0) return;
}
static void setup() {
    env_reset(); Prng r(7); Bytes msg[3] = {r.bytes(9), r.bytes(200), Bytes()}; Bytes pk[3], sk[3], sm[3];
    for (int i = 0; i < 3; i++) { Bytes sd = seed_label(970 + i); Xof x(P.xof(), sd.data(), sd.size()); keygen(P, x, pk[i], sk[i]); sm[i] = sign(P, x, sk[i].data(), msg[i].data(), msg[i].size()); }
    auto add = [&](const char *n, const Bytes *k, const Bytes *s) { Req q; q.name = n; q.pk = k; q.sm = s; q.verdict = open(P, k->data(), s->data(), s->size(), &q.msg); C.traces++; reqs.push_back(q); };
    const Bytes *k0 = hold(pk[0]), *k1 = hold(pk[1]), *s0 = hold(sm[0]), *s1 = hold(sm[1]);
    add("valid0", k0, s0); add("valid1", k1, s1); add("valid0 elsewhere", hold(pk[0]), hold(sm[0]));
    { Bytes b = sm[0]; b[3] ^= 1; add("altered message", k0, hold(b)); }
    { Bytes b = sm[0]; b[msg[0].size() + 2*P.H() + (size_t)P.W*P.actbytes()] ^= 1; add("altered seed", k0, hold(b)); }
    { Bytes b = sm[1]; memset(&b[msg[1].size() + P.H()], 255, P.actbytes()); add("ill-formed response", k1, hold(b)); }
    { Bytes b = sm[1]; b.back() ^= 2; add("bad count", k1, hold(b)); }
    { Bytes b = pk[0]; b[P.SEED] ^= 4; add("malformed key", hold(b), s0); }
    add("other key", k1, s0); add("empty message", hold(pk[2]), hold(sm[2]));
    for (int i = 0; i < 3; i++) { stacks[i] = (u8 *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); outs[i] = (u8 *)mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) exit(9);
    env_hook = hash_hook; rng_start(seed_label(980));
}
static void conflicts(const Acc &x, const Acc &y, std::unordered_map<uintptr_t, u8> &cm) {
    for (auto &e : x) { auto f = y.find(e.first); if (f == y.end()) continue; u8 ra = e.second, wa = e.second >> 8, rb = f->second, wb = f->second >> 8; u8 m = (u8)((wa & (rb | wb)) | (wb & (ra | wa))); if (m) cm[e.first] = m; }
}
static void e_access(long cap1, long cap2) {
    C.scn_id = 0; snprintf(C.cur, 100, "#0 recording"); for (size_t i = 0; i < reqs.size(); i++) if (!record((int)i)) return;
    child_cpu = 2 + (int)(solo_ms*50/1000);
    for (size_t a = 0; a < reqs.size(); a++) for (size_t b = 0; b < reqs.size() && C.viols < 3; b++) {
        std::unordered_map<uintptr_t, u8> cm; conflicts(solo[a], solo[b], cm);
        if (!scn("openings '%s' and '%s': %zu granules with conflicting accesses", reqs[a].name.c_str(), reqs[b].name.c_str(), cm.size())) continue;
        C.extra["pairs"]++; if (cm.empty()) { C.extra["independent_pairs"]++; continue; }
        confl = &cm; enumerate({(int)a, (int)b}, 2, cap1, cap2);
    }
}
/* openings taken from the other explorers: each runs alone in a fresh process and is recorded.  One that writes to no
 * memory but its own stack and outputs is independent of every other; for the rest schedules are enumerated against a copy
 * of itself, against the base requests and against earlier openings that wrote to the same place */
struct Writers { u64 n = 0; std::vector<Req> v; };
static std::map<std::vector<uintptr_t>, Writers> writers; static int wide_runs;
static bool spread(u64 n) { if (n <= 8) return true; while (!(n & 1)) n /= 2; return n == 1 || n == 3 || n == 5 || n == 7; }   /* 1..8, 10, 12, 14, 16, 20, 24, ... */
static size_t nbase;
static Opened wide_open(const Bytes &pk, const Bytes &sm) {
    Opened o; o.rc = 99; o.mlen = 0; if (sm.size() > 4u << 20) { fprintf(stderr, "harness: message\n"); exit(9); }
    reqs.resize(nbase); solo.resize(nbase); Bytes *a = new Bytes(pk), *b = new Bytes(sm), *a2 = new Bytes(pk), *b2 = new Bytes(sm); bool kept = false;
    Req q; q.name = "this"; q.pk = a; q.sm = b; q.verdict = -1; reqs.push_back(q);
    if (record((int)nbase)) {
        o.rc = sh->rc; o.mlen = sh->mlen; env_digests = sh->digests; memcpy(env_last_digest, sh->digest, 64); Bytes m; if (o.rc == 0 && o.mlen <= sm.size()) m.assign(outs[0], outs[0] + o.mlen); o.m = m; C.extra["openings_recorded"]++;
        Acc mine = solo[nbase]; std::vector<uintptr_t> w; for (auto &e : mine) if (e.second >> 8) w.push_back(e.first); std::sort(w.begin(), w.end());
        if (w.empty()) C.extra["openings_without_shared_writes"]++;
        else {
            std::vector<uintptr_t> key; for (auto g : w) if (key.empty() || g/4096 != key.back()) key.push_back(g/4096);
            auto &wr = writers[key]; auto &v = wr.v; wr.n++; C.extra["openings_with_shared_writes"]++;
            if (spread(wr.n) && wide_runs < 60) {
                wide_runs++; kept = true; reqs[nbase].verdict = o.rc == 0 ? ACCEPT : BAD_DIGEST; reqs[nbase].msg = m;
                Req c = reqs[nbase]; c.name = "copy of this"; c.pk = a2; c.sm = b2; reqs.push_back(c); record((int)nbase + 1);
                for (auto &e : v) { reqs.push_back(e); Req &x = reqs.back(); x.verdict = -1; if (!record((int)reqs.size() - 1)) continue; x.verdict = sh->rc == 0 ? ACCEPT : BAD_DIGEST; x.msg.assign(outs[0], outs[0] + (sh->rc == 0 ? std::min<size_t>(sh->mlen, x.sm->size()) : 0)); }
                if (v.size() < 6) v.push_back(reqs[nbase]); else v[wr.n/2 % 6] = reqs[nbase]; const u64 v0 = C.viols;
                for (size_t i = reqs.size(); i-- > 0 && C.viols == v0; ) if (i != nbase) for (int sw = 0; sw < 2 && C.viols == v0; sw++) {
                    std::unordered_map<uintptr_t, u8> cm; conflicts(solo[nbase], solo[i], cm); if (cm.empty()) continue;
                    confl = &cm; int x = (int)nbase, y = (int)i; if (sw) std::swap(x, y); enumerate({x, y}, 2, 60, 4); }
            }
        }
    }
    if (!kept) { delete a; delete b; delete a2; delete b2; }
    return o;
}
static void e_wide(const std::string &what, int step) {
    for (size_t i = 0; i < reqs.size(); i++) if (!record((int)i)) return;
    nbase = reqs.size(); child_cpu = 2 + (int)(solo_ms*50/1000); open_hook = wide_open; env_keep_scripts = 1; using namespace scenarios;
    if (what == "challenges") e_challenges(M_RT);
    else if (what == "lengths") { env_mode = 0; e_lengths(M_RT, C.tier ? 600 : 200); }
    else if (what == "families") e_families(M_RT, step);
    else if (what == "counts") e_counts(M_RT, step);
    else if (what == "tamper") openings::e_tamper(1, step, {});
    else if (what == "forge") openings::e_forge(step);
    else if (what == "badaction") openings::e_badaction(step);
    else if (what == "keys") openings::e_keys(step, 0);
    else exit(9);
}
static void e_hash(long cap1, long cap2, int three) {
    for (size_t a = 0; a < reqs.size(); a++) for (size_t b = 0; b < reqs.size() && C.viols < 3; b++) {
        if (scn("openings '%s' and '%s' at hash calls", reqs[a].name.c_str(), reqs[b].name.c_str())) enumerate({(int)a, (int)b}, 3, cap1, cap2);
        if (three && scn("openings '%s', '%s' and 'valid1' at hash calls", reqs[a].name.c_str(), reqs[b].name.c_str())) enumerate({(int)a, (int)b, 1}, 3, cap1, cap2);
    }
}
int main(int argc, char **argv) {
    h_init(argc, argv); P = load_params(); env_mode = getenv("H_REAL") ? 0 : 1; setup(); std::string cmd = argv[1]; C.scn_cpu_limit = 100000; child_cpu = 30;
    if (cmd == "access") e_access(atol(argv[2]), atol(argv[3])); else if (cmd == "wide") e_wide(argv[2], atoi(argv[3])); else if (cmd == "hash") e_hash(atol(argv[2]), atol(argv[3]), atoi(argv[4])); else return 2;
    return h_finish();
}
