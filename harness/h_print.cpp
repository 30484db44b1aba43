/* P30: the diagnostic printing functions, text read back as nested lists. */
#include "hcommon.hpp"
static int efd = -1, ofd = -1;
static std::string grab(int fd) { std::string s(lseek(fd, 0, SEEK_END), 0); if (pread(fd, &s[0], s.size(), 0)) {} if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); return s; }
static std::string out2;
static std::string print(int kind, const char *name, const Bytes &a, const std::vector<uint16_t> &pos, bool &have) {
    static char nm[300]; strcpy(nm, name); int o2 = dup(2), o1 = dup(1); fflush(stdout); dup2(efd, 2); dup2(ofd, 1);
    int r = g_print(kind, nm, a.data(), pos.data()); dup2(o2, 2); dup2(o1, 1); close(o2); close(o1);
    std::string e = grab(efd); out2 = grab(ofd); C.transitions++; have = r >= 0;
    if (r > 0) viol("printing changed the object"); if (strcmp(nm, name)) viol("printing changed the name"); if (!out2.empty()) viol("printing wrote to the standard output: %.60s", out2.c_str());
    return e; }
/* text after the leading name: numbers, and for each row in square brackets its numbers */
struct Read { std::vector<std::vector<long>> rows; bool ok = true; long depth = 0, maxdepth = 0; };
static Read read(const std::string &t) { Read r; std::vector<long> cur; bool open = false;
    for (size_t i = 0; i < t.size();) { char ch = t[i];
        if (ch == '[') { r.depth++; if (r.depth > r.maxdepth) r.maxdepth = r.depth; cur.clear(); open = true; i++; }
        else if (ch == ']') { if (--r.depth < 0) r.ok = false; if (open) r.rows.push_back(cur); cur.clear(); open = false; i++; }
        else if (isdigit((unsigned char)ch) || (ch == '-' && i + 1 < t.size() && isdigit((unsigned char)t[i + 1]))) { size_t j = i + 1; while (j < t.size() && isdigit((unsigned char)t[j])) j++; if (!open) r.ok = false; cur.push_back(atol(t.substr(i, j - i).c_str())); i = j; }
        else i++; }
    if (r.depth) r.ok = false; return r; }
static void expect(const char *what, const std::string &text, const char *name, const std::vector<std::vector<long>> &rows) {
    size_t at = text.find(name); if (at == std::string::npos || (*name && at != 0)) { viol("%s: the output does not start with the name %s: %.60s", what, name, text.c_str()); return; }
    Read r = read(text.substr(at + strlen(name))); C.traces++;
    if (!r.ok) { viol("%s: brackets do not match: %.200s", what, text.c_str()); return; }
    if (text.empty() || text.back() != '\n') viol("%s: no line end after the output", what);
    if (r.rows.size() != rows.size()) { viol("%s: %zu rows printed, %zu expected: %.200s", what, r.rows.size(), rows.size(), text.c_str()); return; }
    for (size_t i = 0; i < rows.size(); i++) { if (r.rows[i].size() != rows[i].size()) { viol("%s: row %zu has %zu entries, expected %zu", what, i, r.rows[i].size(), rows[i].size()); return; }
        for (size_t j = 0; j < rows[i].size(); j++) if (r.rows[i][j] != rows[i][j]) { viol("%s: entry %zu of row %zu is printed as %ld, it is %ld", what, j, i, r.rows[i][j], rows[i][j]); return; } } }
static void matrix(const char *name, const Bytes &a) { bool h; std::vector<std::vector<long>> w(P.K); for (int i = 0; i < P.K; i++) for (int j = 0; j < P.N; j++) w[i].push_back(a[(size_t)i*P.N + j]); expect("matrix", print(0, name, a, {}, h), name, w); }
static void compact(const char *name, const Bytes &a, const std::vector<uint16_t> &pos) { if (P.N != 2*P.K) return; bool h;     /* the compact form is printed for rate 1/2 codes, which all parameter sets are */
    int M = P.N - P.K; std::vector<std::vector<long>> w(P.K); for (int i = 0; i < P.K; i++) for (int j = 0; j < M; j++) w[i].push_back(a[(size_t)i*M + j]); w.emplace_back(pos.begin(), pos.end()); expect("compact matrix", print(1, name, a, pos, h), name, w); }
static void mono(const char *name, const Bytes &c, const std::vector<uint16_t> &pos) { bool h; std::vector<std::vector<long>> w = {{pos.begin(), pos.end()}, {c.begin(), c.end()}}, e(P.N, std::vector<long>(P.N, 0));
    expect("monomial", print(2, name, c, pos, h), name, w); std::string t = print(4, "", c, pos, h); if (h) expect("unnamed monomial", t, "", w);
    for (int i = 0; i < P.N; i++) e[pos[i]][i] = c[i]; expect("expanded monomial", print(3, name, c, pos, h), name, e); }
static const char *NAMES[] = {"G", "", "Pre-GE", "%s%n%d", "M1^-1 * M1", "%", "\\n\t", "a very long name that is longer than any of the names that are used by the tests of the library and still has to come out unchanged"};
int main(int argc, char **argv) { h_init(argc, argv); P = load_params(); std::string cmd = argv[1]; setvbuf(stderr, nullptr, _IOFBF, 1 << 16); efd = memfd_create("e", 0); ofd = memfd_create("o", 0); const int N = P.N, K = P.K, M = N - K;
    if (cmd == "tiny") {
        const u8 V[] = {0, 1, 126}; 
        for (size_t n = 0; n < sizeof NAMES/sizeof *NAMES; n++) { if (!scn("name %zu", n)) continue; g_set_poison(0x99); matrix(NAMES[n], Prng(n).bytes(N*K)); std::vector<uint16_t> p(N); for (int i = 0; i < N; i++) p[i] = N - 1 - i; Bytes c(N); for (int i = 0; i < N; i++) c[i] = 100 + i; mono(NAMES[n], c, p); compact(NAMES[n], Prng(n).bytes(K*M), {p.begin(), p.begin() + M}); }
        int cells = N*K; bool two = cells > 9; long tot = 1; for (int i = 0; i < cells; i++) tot *= two ? 2 : 3;
        for (long x = 0; x < tot; x++) { if (!scn("matrix %ld", x)) continue; Bytes a(cells); long t = x; for (int i = 0; i < cells; i++, t /= two ? 2 : 3) a[i] = two ? (t & 1)*99 : V[t % 3]; g_set_poison(x & 1 ? 0xff : 0x55); matrix("G", a); }
        cells = N == 2*K ? K*M : 0; tot = 1; for (int i = 0; i < cells; i++) tot *= 3; std::vector<std::vector<uint16_t>> sets; { std::vector<bool> b(N); std::fill(b.begin(), b.begin() + M, true); do { std::vector<uint16_t> s; for (int i = 0; i < N; i++) if (b[i]) s.push_back(i); sets.push_back(s); } while (std::prev_permutation(b.begin(), b.end())); }
        for (long x = 0; x < tot; x++) { if (!scn("compact matrix %ld with every pivot set", x)) continue; Bytes a(cells); long t = x; for (int i = 0; i < cells; i++, t /= 3) a[i] = V[t % 3]; for (auto &s : sets) compact("SF", a, s); }
        std::vector<uint16_t> p(N); for (int i = 0; i < N; i++) p[i] = i; const u8 W[] = {1, 5, 126}; const int B = N > 4 ? 2 : 3; tot = 1; for (int i = 0; i < N; i++) tot *= B;
        do { if (!scn("monomials of a permutation starting %d %d", p[0], p[1])) continue; for (long x = 0; x < tot; x++) { Bytes c(N); long t = x; for (int i = 0; i < N; i++, t /= B) c[i] = W[t % B]; mono("Q", c, p); } } while (std::next_permutation(p.begin(), p.end())); }
    else if (cmd == "full") {
        for (int k = 0; k < 4; k++) { if (!scn("full-size matrix with entries from digit %d of their index", k)) continue; Bytes a((size_t)N*K), b((size_t)K*M); long d = k == 0 ? 1 : k == 1 ? 127 : k == 2 ? 127*127 : 3; for (size_t i = 0; i < a.size(); i++) a[i] = (i/d) % 127; for (size_t i = 0; i < b.size(); i++) b[i] = (i/d) % 127; matrix("G", a); for (int s = 0; s < 4; s++) { std::vector<uint16_t> p(M); for (int i = 0; i < M; i++) p[i] = s == 0 ? i : s == 1 ? K + i : s == 2 ? 2*i : 2*i + 1; compact("SF", b, p); } }
        for (int v = 0; v < 256; v++) { if (!scn("matrix of value %d", v)) continue; g_set_poison(v ^ 0x5a); matrix("G", Bytes((size_t)N*K, v)); compact("SF", Bytes((size_t)K*M, v), std::vector<uint16_t>(M, (uint16_t)std::min(v*2 + (v & 1), N - 1))); }
        for (int s = 0; s < 24; s++) { if (!scn("structured monomial %d", s)) continue; std::vector<uint16_t> p(N); Bytes c(N); int mult = s < 4 ? 1 : 5 + 2*s; while (std::__gcd(mult, N) != 1) mult++; for (int i = 0; i < N; i++) { p[i] = s & 1 ? N - 1 - i*(long)mult % N : (i*(long)mult + s/4*17) % N; c[i] = 1 + (i*(s + 1)) % 126; } mono("Q", c, p); } }
    else return 2; return h_finish(); }
