/* P26: the running statistics of the benchmarks against exact integer sums (samples are multiples of 1/4). */
#include "hcommon.hpp"
#include <quadmath.h>
extern "C" { void st_init(int); void st_add(int, long double); long double st_mean(int); long double st_dev(int); double st_t(int, int); void st_print(int); void g_info(struct g_params *) {} }
typedef __int128 I; typedef __float128 Q; typedef std::vector<long long> Seq;      /* in quarters */
struct Exact1 { I s = 0, q = 0; long n = 0; long long big = 0; Q mean() const { return (Q)s/(4*(Q)n); } Q m2() const { return (Q)(q*n - s*s)/(16*(Q)n); } Q var() const { return m2()/(n - 1); }
    void add(long long x) { s += x; q += (I)x*x; n++; if (llabs(x) > big) big = llabs(x); } };
static const Q EPS = 1.1e-19Q;
static Q tol_mean(const Exact1 &e) { return 8*(Q)e.n*EPS*(Q)e.big/4; }
/* Welford's recurrence: |error of M2| <= c n eps sqrt(M2 (M2 + n mean^2)) + second-order terms */
static Q tol_m2(const Exact1 &e) { Q t = 8*(Q)e.n*EPS, m = fabsq(e.mean()) + (Q)e.big*EPS, s = e.m2(); return 4*t*sqrtq(s*(s + (Q)e.n*m*m)) + (Q)e.n*t*t*((Q)e.big/4)*((Q)e.big/4); }
static Exact1 feed(int i, const Seq &v) { Exact1 e; st_init(i); for (long long x : v) { st_add(i, (long double)x/4); e.add(x); } return e; }
static std::string str(const Seq &v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; i++) s += std::to_string(v[i]/4.0) + " "; return s; }
static void check(const Seq &v, int slot = 0) {
    Exact1 e = feed(slot, v); C.transitions += v.size(); Q m = st_mean(slot); if (e.n == 0) return;
    if (!(fabsq(m - e.mean()) <= tol_mean(e))) viol("mean of %ld samples %sis %.20Lg, exactly %.20Lg", e.n, str(v).c_str(), st_mean(slot), (long double)e.mean());
    if (e.n < 2) return; Q d = st_dev(slot), m2 = d*d*(e.n - 1);
    if (!(fabsq(m2 - e.m2()) <= tol_m2(e) + 16*EPS*e.m2())) viol("deviation of %ld samples %sis %.20Lg, exactly %.20Lg", e.n, str(v).c_str(), st_dev(slot), (long double)sqrtq(e.var()));
    C.traces++; }
static void pair(const Seq &a, const Seq &b) {
    Exact1 x = feed(0, a), y = feed(1, b); if (x.n < 2 || y.n < 2) return; C.transitions += a.size() + b.size(); Q den2 = x.var()/x.n + y.var()/y.n; if (den2 == 0) return;
    Q t = (x.mean() - y.mean())/sqrtq(den2), g = st_t(0, 1); Q dd = (tol_m2(x)/(x.n - 1)/x.n + tol_m2(y)/(y.n - 1)/y.n)/den2; if (dd > 0.1Q) return;
    Q tol = (tol_mean(x) + tol_mean(y))/sqrtq(den2) + fabsq(t)*(2*dd + 4e-16Q) + 1e-300Q;
    if (!(fabsq(g - t) <= tol)) viol("t statistic of %sand %sis %.17g, exactly %.17g", str(a).c_str(), str(b).c_str(), (double)g, (double)t);
    Q h = st_t(1, 0); if (!(fabsq(h + t) <= tol)) viol("t statistic of exchanged sequences %sand %sis %.17g, exactly %.17g", str(b).c_str(), str(a).c_str(), (double)h, (double)-t);
    Q z = st_t(0, 0); if (x.var() > 0 && !(fabsq(z) <= tol)) viol("t statistic of a sequence with itself is %.17g", (double)z); C.traces++; }
static std::string printed(int slot) { char p[] = "/tmp/statXXXXXX"; int f = mkstemp(p); unlink(p); fflush(stdout); int o = dup(1); dup2(f, 1); st_print(slot); fflush(stdout); dup2(o, 1); close(o); std::string s(lseek(f, 0, SEEK_CUR), 0); if (pread(f, &s[0], s.size(), 0)) {} close(f); return s; }
int main(int argc, char **argv) {
    h_init(argc, argv); const bool deep = C.tier; std::string cmd = argv[1];
    static const long long V[] = {0, 4, 8, 1, -20, 4000, 1ll << 42, (1ll << 42) + 4, 4*123456789ll}; const int NV = 9;
    if (cmd == "seqs") {
        for (int l = 0; l <= (deep ? 7 : 5); l++) { long n = 1; for (int i = 0; i < l; i++) n *= NV; for (long c = 0; c < n; c++) { if (!scn("sequence %ld of length %d", c, l)) continue; Seq v; for (long i = 0, t = c; i < l; i++, t /= NV) v.push_back(V[t % NV]); check(v); } }
        for (int l = 6; l <= (deep ? 16 : 13); l++) for (long c = 0; c < 1l << l; c++) for (int b = 0; b < 3; b++) { if (!scn("two-valued sequence %lx of length %d, base %d", c, l, b)) continue; Seq v; for (int i = 0; i < l; i++) v.push_back((c >> i & 1 ? 7 : 3) + (b ? 1ll << (b == 1 ? 34 : 44) : 0)); check(v); } }
    else if (cmd == "pairs") { static const int U[] = {0, 1, 4, 6, 8}; std::vector<Seq> s; for (int l = 2; l <= (deep ? 4 : 3); l++) { int n = 1; for (int i = 0; i < l; i++) n *= 5; for (int c = 0; c < n; c++) { Seq v; for (int i = 0, t = c; i < l; i++, t /= 5) v.push_back(V[U[t % 5]]); s.push_back(v); } }
        for (size_t i = 0; i < s.size(); i++) { if (!scn("t statistics of sequence %zu with all others", i)) continue; for (auto &b : s) pair(s[i], b); } 
        for (int n1 : {2, 10, 1000, 100000}) for (int n2 : {2, 3, 77, 50000}) for (int k = 0; k < 4; k++) { if (!scn("long sequences %d %d %d", n1, n2, k)) continue; Seq a, b; Prng r(n1 + k), q(n2*3 + k); long long base = k & 1 ? 4000000000ll : 0; for (int i = 0; i < n1; i++) a.push_back(base + r.below(1000)); for (int i = 0; i < n2; i++) b.push_back(base + q.below(k & 2 ? 1000 : 10) + k); pair(a, b); } }
    else if (cmd == "long") { for (long n : {10l, 100l, 1000l, 1024l, 4097l, 100000l, deep ? 4000000l : 300000l}) for (int k = 0; k < 8; k++) for (long long base : {0ll, 4000ll, 1ll << 36}) { if (!scn("%ld samples of kind %d above %lld", n, k, base)) continue; Prng r(n + k); Seq v; v.reserve(n);
            for (long i = 0; i < n; i++) v.push_back(base + (k == 0 ? 0 : k == 1 ? i : k == 2 ? (i & 1)*4 : k == 3 ? (long long)r.below(4000) : k == 4 ? (i == n - 1)*100000 : k == 5 ? (i == 0)*100000 : k == 6 ? n - i : (i*i) % 997)); check(v); std::reverse(v.begin(), v.end()); check(v, 1); check(v, 2); } }
    else if (cmd == "print") { for (int a = 0; a < NV; a++) for (int b = 0; b < NV; b++) for (int d = 0; d < NV; d++) { if (!scn("printing %d %d %d", a, b, d)) continue; Seq v = {V[a], V[b], V[d]}; Exact1 e = feed(0, v); std::string s = printed(0); C.transitions++; long double m, q; int used = 0;
            if (sscanf(s.c_str(), "%Lf,%Lf%n", &m, &q, &used) != 2 || used != (int)s.size()) { viol("printed as %s", s.c_str()); continue; }
            if (!(fabsq(m - e.mean()) <= 0.0050001Q + tol_mean(e)) || !(fabsq(q - sqrtq(e.var())) <= 0.0050001Q + 1e-9Q)) viol("samples %sare printed as %s", str(v).c_str(), s.c_str()); } }
    else return 2;
    return h_finish();
}
