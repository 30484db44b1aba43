/* Building blocks, explored exhaustively or over structured families. */
#pragma weak g_rref
#pragma weak g_monomul
#pragma weak g_lexmin
#pragma weak g_lexmin_all
#pragma weak g_lexsort
#pragma weak g_prepare
#pragma weak g_vsize
#pragma weak g_apply_action
#pragma weak g_compress_rref
#pragma weak g_expand_rref
#pragma weak g_sf_expand
#pragma weak g_compact_expand
#pragma weak g_mono_mul
#pragma weak g_mono_inv
#pragma weak g_mono_id
#pragma weak g_mono_rnd
#pragma weak g_mono_salt
#pragma weak g_mono_prikey
#pragma weak g_compose
#pragma weak g_compress_act
#pragma weak g_expand_act
#pragma weak g_valid
#pragma weak g_tree_gen
#pragma weak g_tree_path
#pragma weak g_tree_rebuild
#pragma weak g_challenge
#pragma weak g_fq_red
#pragma weak g_fq_inv
#pragma weak g_mul_red
#include "scheme.hpp"

static const u8 POISON[] = {0xA5, 0x00, 0xFF, 0x7F};
static Mono mono_id() { Mono m; m.perm.resize(P.N); std::iota(m.perm.begin(), m.perm.end(), 0); m.coef.assign(P.N, 1); return m; }
static bool same(const Mono &a, const Mono &b) { return a.perm == b.perm && a.coef == b.coef; }
static std::string showm(const Mono &m) { std::string s; for (size_t i = 0; i < m.perm.size() && i < 10; i++) s += " " + std::to_string(m.perm[i]) + "*" + std::to_string(m.coef[i]); return s; }

/* ================= P11 field ================= */
static void e_scalar() {
    for (int x = 0; x <= 126*126 + 126; x++) if (scn("reduction of %d", x)) { C.transitions++; int r = g_fq_red(x); if (r != x % 127) viol("fq_red(%d) = %d", x, r); }
    for (int x = 0; x < 127; x++) if (scn("inverse of %d", x)) { C.transitions++; int r = g_fq_inv(x); if (x && (r > 126 || r*x % 127 != 1)) viol("fq_inv(%d) = %d", x, r); }
    for (int a = 0; a < 127; a++) for (int b = 0; b < 127; b++) if (scn("product %d * %d", a, b)) { C.transitions++; int r = g_mul_red(a, b); if (r != a*b % 127) viol("%d * %d reduced to %d", a, b, r); }
}
/* every operand pair in every vector lane of the column scaling */
static void e_lanes_mul() {
    const int N = P.N, K = P.K; std::vector<u16> id(N); std::iota(id.begin(), id.end(), 0); Bytes a((size_t)N*K), o((size_t)N*K), c(N);
    for (int s = 0; s < 126; s++) for (int blk = 0; blk*K < 127; blk++) for (int dir = 0; dir < 2; dir++) {
        if (!scn("column scaling, coefficient shift %d, row values from %d, %s", s, blk*K, dir ? "descending" : "ascending")) continue;
        for (int i = 0; i < K; i++) memset(&a[(size_t)i*N], (blk*K + i) % 127, N);
        for (int j = 0; j < N; j++) c[j] = (u8)(1 + (dir ? s + 126*1000 - j : s + j) % 126);
        g_set_poison(POISON[s & 3]); g_monomul(o.data(), a.data(), c.data(), id.data()); C.transitions++;
        for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) if (o[(size_t)i*N + j] != a[(size_t)i*N + j]*c[j] % 127) { viol("column %d: %d * %d gave %d", j, a[(size_t)i*N + j], c[j], o[(size_t)i*N + j]); i = K; break; }
    }
}
/* pivot scaling and row elimination: every (factor, value) and every (product, value) in every lane */
static void one_rref(const Mat &m, bool full = true) {
    Mat want = m; std::vector<int> piv; int rank = rref(want, piv); Bytes a = m.a, pv(P.N, 0);
    int r = g_rref(a.data(), pv.data()); C.transitions++; C.traces++;
    if ((r != 0) != (rank == P.K)) { viol("row reduction returned %d, rank is %d of %d", r, rank, P.K); return; }
    if (!r) return;
    if (a != want.a) { size_t i = 0; while (a[i] == want.a[i]) i++; viol("row reduction result differs at row %zu column %zu: %d, should be %d", i/P.N, i % P.N, a[i], want.a[i]); }
    Bytes wp(P.N, 0); for (int p : piv) wp[p] = 1;
    for (auto &x : pv) x = x != 0;
    if (pv != wp) viol("pivot flags differ from the pivot columns"); (void)full;
}
static Mat lane_matrix(int sc, int c, const std::function<int(int)> &v, const std::function<int(int)> &w, int tail) {
    Mat m(P.K, P.N); const int K = P.K, N = P.N;
    for (int j = 1; j < N; j++) { m.at(0, j) = (u8)v(j); m.at(1, j) = (u8)w(j); }
    m.at(0, 0) = (u8)sc; m.at(1, 0) = (u8)c;
    for (int i = 2; i < K; i++) { int p = tail ? N - K + i : i; for (int r = 0; r < 2; r++) m.at(r, p) = 0; m.at(i, p) = 1; m.at(i, 0) = (u8)(c*i % 127); }
    return m;
}
static void e_lanes_rref() {
    for (int t = 0; t < 2; t++) for (int f = 1; f < 127; f++) for (int s = 0; s < 127; s++) {
        if (scn("pivot %d, pivot row shift %d, layout %d", f, s, t)) one_rref(lane_matrix(f, (f + s) % 127, [&](int j) { return (j + s) % 127; }, [&](int j) { return (j*3 + s) % 127; }, t));
        if (scn("factor %d, row shift %d, layout %d", f, s, t)) one_rref(lane_matrix(1, f, [&](int j) { return (j + s) % 127; }, [&](int j) { return (j*5 + s*3) % 127; }, t));
    }
    for (int t = 0; t < 2; t++) for (int d = 0; d < 127; d++) for (int s = 0; s < 127; s++)
        if (scn("sum of value %d lanes apart, shift %d, layout %d", d, s, t)) one_rref(lane_matrix(1, 126, [&](int j) { return (j + s) % 127; }, [&](int j) { return (j + s + d) % 127; }, t));
}
/* normalisation: every (leading value, value) pair */
static size_t vstride() { return g_vsize()/P.K; }
static void e_lanes_norm() {
    const int N = P.N, K = P.K, R = N - K; Bytes a((size_t)N*K), V(g_vsize());
    for (int f = 1; f < 127; f++) for (int s = 0; s < 127; s += std::max(1, R - 1)) {
        if (!scn("column normalisation, leading value %d, shift %d", f, s)) continue;
        for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) a[(size_t)i*N + j] = i == 0 ? f : (u8)((i + j + s) % 127);
        g_lexmin_all(V.data(), a.data()); C.transitions++; int iv = inv_mod(f);
        for (int i = 0; i < K; i++) for (int j = 0; j < R; j++) { int w = a[(size_t)i*N + K + j]*iv % 127, g = V[i*vstride() + j]; if (w != g) { viol("normalising %d by leading %d gave %d", a[(size_t)i*N + K + j], f, g); i = K; break; } }
    }
}

/* ================= P12 row reduction ================= */
static void e_rref_tiny(std::vector<int> vals) {
    size_t cells = (size_t)P.K*P.N; u64 n = 1; for (size_t i = 0; i < cells; i++) n *= vals.size();
    for (u64 x = 0; x < n; x++) { if (!scn("matrix number %llu over %zu values", (unsigned long long)x, vals.size())) continue; Mat m(P.K, P.N); u64 y = x; for (size_t i = 0; i < cells; i++, y /= vals.size()) m.a[i] = (u8)vals[y % vals.size()]; g_set_poison(POISON[x & 3]); one_rref(m); }
}
static void rand_mat(Mat &m, u64 s) { Prng r(s); for (auto &v : m.a) v = (u8)r.below(127); }
static void e_rref_full(int step) {
    const int N = P.N, K = P.K; u64 id = 0; 
    auto go = [&](const Mat &m) { g_set_poison(POISON[id & 3]); one_rref(m); };
    /* systematic shape with pivot columns given, rows mixed */
    auto shaped = [&](const std::vector<int> &piv, u64 s, int mix) {
        Mat m(K, N); Prng r(s); std::vector<char> isp(N, 0); for (int p : piv) isp[p] = 1;
        for (int i = 0; i < K; i++) for (int j = i < (int)piv.size() ? piv[i] + 1 : N; j < N; j++) m.at(i, j) = (u8)r.below(127);
        for (size_t i = 0; i < piv.size(); i++) m.at(i, piv[i]) = (u8)(1 + r.below(126));
        if (mix == 1) for (int i = 0; i < K/2; i++) std::swap_ranges(m.row(i), m.row(i) + N, m.row(K-1-i));
        if (mix == 2) for (int i = K - 1; i > 0; i--) { int j = r.below(i + 1); if (i != j) std::swap_ranges(m.row(i), m.row(i) + N, m.row(j)); }
        if (mix == 3) for (int k = 0; k < 4; k++) { int f = 1 + r.below(126); for (int i = 0; i < K; i++) { int j = (i*7 + k + 1) % K; if (j == i) continue; for (int c = 0; c < N; c++) m.at(i, c) = (u8)((m.at(i, c) + f*m.at(j, c)) % 127); } }
        return m; };
    auto range = [&](int from) { std::vector<int> p(K); std::iota(p.begin(), p.end(), from); return p; };
    for (int s = 0; s <= N - K; s += step) for (int mix = 0; mix < 4; mix++) { id++; if (scn("pivots from column %d, mix %d", s, mix)) go(shaped(range(s), s, mix)); }
    for (int g = 0; g <= K; g += step) for (int w : {1, 2, (N - K)/2, N - K}) for (int mix = 0; mix < 3; mix += 2) { id++; if (!scn("pivot columns with a gap of %d before pivot %d, mix %d", w, g, mix)) continue; auto p = range(0); for (int i = g; i < K; i++) p[i] += w; go(shaped(p, g*7 + w, mix)); }
    for (int d = 2; d*(K-1) < N || d == 2; d++) { id++; if (!scn("every %dth column a pivot", d)) continue; std::vector<int> p; for (int i = 0; i < K && i*d < N; i++) p.push_back(i*d); while ((int)p.size() < K) p.push_back(p.back() + 1 < N ? p.back() + 1 : N - 1); std::set<int> u(p.begin(), p.end()); for (int c = N - 1; (int)u.size() < K; c--) u.insert(c); go(shaped(std::vector<int>(u.begin(), u.end()), d, 2)); }
    for (int c = 0; c < N; c += step) { id++; if (!scn("last pivot at column %d", c)) continue; if (c < K - 1) continue; auto p = range(0); p[K-1] = c; go(shaped(p, c, 1)); }
    /* a pivot that must be fetched from row j for row i */
    for (int i = 0; i < K; i += step) for (int j = i + 1; j < K; j += (j - i < 3 || K - j < 3) ? 1 : 5*step) { id++; if (!scn("pivot of row %d found in row %d", i, j)) continue; Mat m(K, N); rand_mat(m, id); for (int r = 0; r < K; r++) for (int c = 0; c < K; c++) m.at(r, c) = r == c; std::swap_ranges(m.row(i), m.row(i) + N, m.row(j)); go(m); }
    /* entries of a single value, triangular shapes */
    for (int v = 1; v < 127; v += step) { id++; if (!scn("pivots of value %d", v)) continue; Mat m(K, N); for (int r = 0; r < K; r++) for (int c = 0; c < N; c++) m.at(r, c) = c == r ? v : c >= K ? (r + c*v) % 127 : c < r ? (u8)v : 0; go(m); }
    /* rank deficiency */
    for (int i = 0; i < K; i += step) {
        id++; if (scn("row %d zero", i)) { Mat m(K, N); rand_mat(m, id); memset(m.row(i), 0, N); go(m); }
        id++; if (scn("row %d a multiple of another", i)) { Mat m(K, N); rand_mat(m, id); int j = (i + 1 + id % (K - 1)) % K; if (j == i) continue; for (int c = 0; c < N; c++) m.at(i, c) = (u8)(m.at(j, c)*(1 + id % 126) % 127); go(m); }
        id++; if (scn("row %d a combination of all others", i)) { Mat m(K, N); rand_mat(m, id); for (int c = 0; c < N; c++) { int s = 0; for (int r = 0; r < K; r++) if (r != i) s += m.at(r, c)*(r % 126 + 1); m.at(i, c) = (u8)(s % 127); } go(m); }
        id++; if (scn("rank %d", i)) { Mat m = shaped(std::vector<int>(), 0, 0); Prng r(id); for (int t = 0; t < i; t++) for (int c = t; c < N; c++) m.at(t, c) = c == t ? 1 : (u8)r.below(127); go(m); }
        id++; if (scn("rank %d, pivots at the end", i)) { Mat m(K, N); for (int t = 0; t < i; t++) m.at(K-1-t, N - 1 - t) = (u8)(1 + t % 126); go(m); }
        id++; if (scn("only the last columns give rank, missing %d", i)) { Mat m(K, N); for (int t = 0; t < K; t++) if (t != i) m.at(t, N - K + t) = 126; else m.at(t, N - 1) = 1; go(m); }
    }
    id++; if (scn("zero matrix")) go(Mat(K, N));
    for (int s = 0; s < 6; s++) { id++; if (scn("random matrix %d", s)) { Mat m(K, N); rand_mat(m, s + 99); go(m); } }
}

/* ================= P13 canonical commitment ================= */
static std::vector<int> first_pivots() { std::vector<int> p(P.K); std::iota(p.begin(), p.end(), 0); return p; }
static void one_canon(const Mat &cols) {       /* K x (N-K) non-pivot part */
    const int N = P.N, K = P.K, R = N - K; Mat g(K, N); for (int i = 0; i < K; i++) { g.at(i, i) = 1; memcpy(g.row(i) + K, cols.row(i), R); }
    Mat want = canonical(g, first_pivots()); Bytes V(g_vsize()); g_lexmin_all(V.data(), g.a.data()); 
    for (int i = 0; i < K; i++) for (int j = 0; j < R; j++) { int lead = 0; for (int r = 0; r < K && !lead; r++) lead = cols.at(r, j); int w = lead ? cols.at(i, j)*inv_tab(lead) % 127 : 0; if (V[i*vstride() + j] != w) { viol("column %d normalised wrongly at row %d", j, i); return; } }
    g_lexsort(V.data()); C.transitions++; C.traces++;
    for (int i = 0; i < K; i++) for (int j = 0; j < R; j++) if (V[i*vstride() + j] != want.at(i, j)) { viol("canonical form differs at row %d column %d", i, j); return; }
}
static void e_canon_tiny(std::vector<int> vals) {
    const int K = P.K, R = P.N - P.K; u64 n = 1; for (int i = 0; i < K*R; i++) n *= vals.size();
    for (u64 x = 0; x < n; x++) { if (!scn("columns number %llu", (unsigned long long)x)) continue; Mat m(K, R); u64 y = x; for (auto &e : m.a) { e = (u8)vals[y % vals.size()]; y /= vals.size(); } one_canon(m); }
}
static void e_canon_full(int step) {
    const int K = P.K, R = P.N - P.K;
    auto fill = [&](u64 s, const std::function<int(int, int, Prng &)> &f) { Mat m(K, R); Prng r(s); for (int i = 0; i < K; i++) for (int j = 0; j < R; j++) m.at(i, j) = (u8)f(i, j, r); return m; };
    for (int l = 0; l <= K; l += step) {
        if (scn("leading entries in row %d", l)) one_canon(fill(l, [&](int i, int, Prng &r) { return i < l ? 0 : (int)r.below(127); }));
        if (scn("common prefix of %d rows", l)) one_canon(fill(l, [&](int i, int j, Prng &r) { return i < l ? (i*5 + 1) % 127 : (int)r.below(127) + 0*j; }));
        if (scn("columns differing only in row %d", l)) one_canon(fill(l, [&](int i, int j, Prng &) { return i == l ? j % 127 : 1 + i % 126; }));
        if (scn("two-valued after row %d", l)) one_canon(fill(l, [&](int i, int, Prng &r) { return i < l ? 1 : (int)r.below(2); }));
        if (scn("unit columns, row %d", l)) one_canon(fill(l, [&](int i, int j, Prng &) { return i == (l + j) % K ? 1 + j % 126 : 0; }));
        if (scn("leading row varies, from %d", l)) one_canon(fill(l, [&](int i, int j, Prng &r) { return i < (l + j) % K ? 0 : 1 + (int)r.below(126); }));
        if (scn("first difference between 126 and small at row %d", l)) one_canon(fill(l, [&](int i, int j, Prng &r) { return i < l ? 3 : i == l ? (j & 1 ? 126 : j % 4) : (int)r.below(127); }));
    }
    for (int j = 0; j < R; j += step) {
        if (scn("zero column at %d", j)) one_canon(fill(j, [&](int, int c, Prng &r) { return c == j ? 0 : (int)r.below(127); }));
        if (scn("equal columns %d and next", j)) { Mat m = fill(j, [&](int, int, Prng &r) { return (int)r.below(127); }); for (int i = 0; i < K; i++) m.at(i, (j + 1) % R) = m.at(i, j); one_canon(m); }
        if (scn("proportional columns %d and first", j)) { Mat m = fill(j, [&](int, int, Prng &r) { return (int)r.below(127); }); for (int i = 0; i < K; i++) m.at(i, 0) = (u8)(m.at(i, j)*(2 + j % 125) % 127); one_canon(m); }
        if (scn("ascending with rotation %d", j)) one_canon(fill(j, [&](int i, int c, Prng &) { int v = (c + j) % R; return i == 0 ? 1 : i == 1 ? v/127 : i == 2 ? v % 127 : (i*v) % 127; }));
        if (scn("descending with rotation %d", j)) one_canon(fill(j, [&](int i, int c, Prng &) { int v = (R - 1 - c + j) % R; return i == 0 ? 1 : i == 1 ? v/127 : i == 2 ? v % 127 : (i*v) % 127; }));
        if (scn("%d distinct columns repeated", j + 1)) one_canon(fill(j, [&](int i, int c, Prng &) { int v = c*c % (j + 1); return i == 0 ? 1 : (v*(i + 1)*37 + v/3) % 127; }));
        if (scn("organ pipe turning at %d", j)) one_canon(fill(j, [&](int i, int c, Prng &) { int v = c <= j ? c : 2*j + R - c; return i == 0 ? 5 : i == 1 ? v/127 % 127 : i == 2 ? v % 127 : 7; }));
    }
    if (scn("all zero")) one_canon(Mat(K, R));
    for (int v : {1, 126}) if (scn("all %d", v)) one_canon(fill(0, [&](int, int, Prng &) { return v; }));
    for (int s = 0; s < 5; s++) if (scn("random %d", s)) one_canon(fill(s + 50, [&](int, int, Prng &r) { return (int)r.below(127); }));
}
/* prover's and verifier's commitments, from the blocks they use */
static void e_prepare(int step) {
    const int N = P.N, K = P.K; u64 id = 0;
    auto go = [&](const Mat &g, const Mono &m) {
        Mat V; Action bar; bool ok = prepare(P, g, m, V, bar); Bytes v(g_vsize()), c(K), c2((size_t)N*K), pv(N, 0); std::vector<u16> p(K);
        if (!ok) return;
        g_set_poison(POISON[id & 3]); g_prepare(v.data(), c.data(), p.data(), g.a.data(), m.coef.data(), m.perm.data()); C.transitions++; C.traces++;
        for (int i = 0; i < K; i++) for (int j = 0; j < N - K; j++) if (v[i*vstride() + j] != V.at(i, j)) { viol("commitment differs at row %d column %d", i, j); return; }
        if (p != bar.src || c != bar.coef) { viol("prepared response differs from the specified one"); return; }
        g_apply_action(c2.data(), g.a.data(), c.data(), p.data()); Mat w = action_apply(P, g, bar);
        if (w.a != c2) { viol("applying the response to the code gives a wrong matrix"); return; }
        /* verifier's side from the response */
        std::vector<int> piv; rref(w, piv); Mat V2 = canonical(w, piv); if (V2.a != V.a) viol("harness: model commitments differ");
        if (!g_rref(c2.data(), pv.data())) { viol("response leads to a singular matrix"); return; }
        Bytes v2(g_vsize()); g_lexmin_all(v2.data(), c2.data()); g_lexsort(v2.data());
        for (int i = 0; i < K; i++) for (int j = 0; j < N - K; j++) if (v2[i*vstride() + j] != V.at(i, j)) { viol("verifier's commitment differs at row %d column %d", i, j); return; }
    };
    for (int c = 0; c <= 17; c++) for (int e = 0; e <= 6; e++) for (int k = 0; k < 5; k++) { id++; if (scn("code %d monomial %d/%d", c, e, k)) go(code_struct(c, K/2, id), mono_of(e, N/3, k, id)); }
    for (int r = 0; r < N; r += step) for (int c : {0, 3, 10, 13}) { id++; if (scn("code %d rotation %d", c, r)) go(code_struct(c, r % K, id), mono_of(2, r, 3, id)); }
    for (int l = 0; l <= K; l += step) for (int c : {6, 7, 12, 17}) { id++; if (scn("code %d(%d)", c, l)) go(code_struct(c, l % K, id), mono_of(3, 0, 3, id)); }
}

/* ================= P14 codecs ================= */
static void one_rref_code(const Mat &g, const std::vector<int> &piv, u64 id) {
    Bytes want = enc_rref(P, g, piv), pv(P.N, 0); for (int p : piv) pv[p] = 1;
    Buf o(P.rrefbytes(), id % 32, (int)(id*37 & 255)); if (GP.rrefbytes != P.rrefbytes()) { viol("packed matrix has %d bytes, specified %d", GP.rrefbytes, P.rrefbytes()); return; }
    g_set_poison(POISON[id & 3]); g_compress_rref(o.p, g.a.data(), pv.data()); C.transitions++; C.traces++;
    if (!o.intact()) viol("packing a matrix writes outside its %d bytes", P.rrefbytes());
    if (memcmp(o.p, want.data(), want.size())) { size_t i = 0; while (o.p[i] == want[i]) i++; viol("packed matrix differs at byte %zu of %zu: %02x, specified %02x", i, want.size(), o.p[i], want[i]); return; }
    Exact in(P.rrefbytes()); memcpy(in.p, want.data(), want.size()); Bytes back((size_t)P.N*P.K); g_set_poison(POISON[(id + 1) & 3]); g_expand_rref(back.data(), in.p);
    if (back != g.a) { size_t i = 0; while (back[i] == g.a[i]) i++; viol("unpacked matrix differs at row %zu column %zu: %d, packed %d", i/P.N, i % P.N, back[i], g.a[i]); }
    if (memcmp(in.p, want.data(), want.size())) viol("unpacking modified its input");
}
static Mat with_piv(const std::vector<int> &piv, const std::function<int(int, int)> &f) {
    Mat g(P.K, P.N); std::vector<char> isp(P.N, 0); for (int p : piv) isp[p] = 1;
    for (int i = 0; i < P.K; i++) { g.at(i, piv[i]) = 1; int k = 0; for (int j = 0; j < P.N; j++) if (!isp[j]) g.at(i, j) = (u8)f(i, k++); } return g;
}
static std::vector<std::vector<int>> pivot_patterns(int step) {
    std::vector<std::vector<int>> r; const int N = P.N, K = P.K;
    for (int s = 0; s <= N - K; s += step) { std::vector<int> p(K); std::iota(p.begin(), p.end(), s); r.push_back(p); }
    for (int c = 0; c < N; c += step) {        /* column c alone moved in or out */
        std::set<int> u; for (int i = 0; i < K; i++) u.insert(i); if (u.count(c)) { u.erase(c); u.insert(N - 1 - c % (N - K)); } else { u.erase(c % K); u.insert(c); }
        if ((int)u.size() == K) r.push_back(std::vector<int>(u.begin(), u.end()));
        Prng x(c); u.clear(); while ((int)u.size() < K) u.insert(x.below(N)); r.push_back(std::vector<int>(u.begin(), u.end()));
    }
    for (int d = 2; d <= N/K; d++) { std::vector<int> p; for (int i = 0; i < K; i++) p.push_back(i*d); if (p.back() < N) r.push_back(p); }
    for (int w = 1; w < K; w *= 2) { std::set<int> u; for (int j = 0; j < N && (int)u.size() < K; j++) if (j/w % 2) u.insert(j); for (int j = 0; (int)u.size() < K; j++) u.insert(j); r.push_back(std::vector<int>(u.begin(), u.end())); }
    return r;
}
static void e_codec_rref(int step) {
    const int K = P.K, R = P.N - P.K; u64 id = 0; auto pp = pivot_patterns(step);
    for (auto &piv : pp) { id++; if (scn("pivot pattern %llu, first %d last %d", (unsigned long long)id, piv[0], piv[K-1])) one_rref_code(with_piv(piv, [&](int i, int j) { return (i*31 + j*7 + (int)id) % 127; }), piv, id); }
    for (int v = 0; v < 127; v++) { id++; if (scn("every entry takes value number %d of a cycle", v)) one_rref_code(with_piv(pp[v*13 % pp.size()], [&](int i, int j) { return (i*R + j + v) % 127; }), pp[v*13 % pp.size()], id); }
    for (int bg : {0, 126}) for (long e = 0; e < (long)K*R; e += (e < 40 || e > (long)K*R - 40) ? 1 : 8*step*step*(K > 20 ? 13 : 1) + 1) for (int v : {1, 64, 85}) { id++; if (!scn("entry %ld is %d among %d", e, v, bg)) continue; auto &p = pp[id % pp.size()]; one_rref_code(with_piv(p, [&](int i, int j) { return (long)i*R + j == e ? v : bg; }), p, id); }
}
static void e_codec_tiny() {                       /* every pivot pattern of a small code */
    const int N = P.N, K = P.K; std::vector<int> p(K); std::iota(p.begin(), p.end(), 0); u64 id = 0;
    for (;;) { id++; if (scn("pivot set number %llu", (unsigned long long)id)) one_rref_code(with_piv(p, [&](int i, int j) { return (int)((i*29 + j*3 + id) % 127); }), p, id);
        int k = K - 1; while (k >= 0 && p[k] == N - K + k) k--; if (k < 0) break; p[k]++; for (int j = k + 1; j < K; j++) p[j] = p[j-1] + 1; }
}
static void one_act_code(const Action &a, u64 id) {
    Bytes want = enc_action(P, a); Buf o(P.actbytes(), id % 32, (int)(id*41 & 255)); if (GP.actbytes != P.actbytes()) { viol("packed response has %d bytes, specified %d", GP.actbytes, P.actbytes()); return; }
    g_set_poison(POISON[id & 3]); g_compress_act(o.p, a.coef.data(), a.src.data()); C.transitions++; C.traces++;
    if (!o.intact()) viol("packing a response writes outside its %d bytes", P.actbytes());
    if (memcmp(o.p, want.data(), want.size())) { size_t i = 0; while (o.p[i] == want[i]) i++; viol("packed response differs at byte %zu of %zu: %02x, specified %02x", i, want.size(), o.p[i], want[i]); return; }
    Exact in(P.actbytes()); memcpy(in.p, want.data(), want.size()); Bytes c(P.K); std::vector<u16> s(P.K); g_set_poison(POISON[(id + 1) & 3]); g_expand_act(c.data(), s.data(), in.p);
    if (c != a.coef) viol("unpacked response coefficients differ"); if (s != a.src) viol("unpacked response columns differ");
}
static void e_codec_act() {
    const int K = P.K, nv = 1 << P.permbits; u64 id = 0; Action a; a.src.resize(K); a.coef.resize(K);
    for (int v = 0; v < nv; v++) { id++; if (!scn("every column index takes value number %d", v)) continue; for (int i = 0; i < K; i++) { a.src[i] = (u16)((i + v) % nv); a.coef[i] = (u8)((i + v) & 127); } one_act_code(a, id); }
    for (int i = 0; i < K; i++) for (int b = 0; b < P.permbits; b++) for (int inv = 0; inv < 2; inv++) { id++; if (!scn("bit %d of column index %d alone %s", b, i, inv ? "clear" : "set")) continue; for (int k = 0; k < K; k++) { a.src[k] = (u16)(inv ? nv - 1 : 0); a.coef[k] = inv ? 127 : 0; } a.src[i] ^= 1 << b; one_act_code(a, id); }
    for (int i = 0; i < K; i++) for (int b = 0; b < 7; b++) for (int inv = 0; inv < 2; inv++) { id++; if (!scn("bit %d of coefficient %d alone %s", b, i, inv ? "clear" : "set")) continue; for (int k = 0; k < K; k++) { a.src[k] = (u16)(inv ? nv - 1 : 0); a.coef[k] = inv ? 127 : 0; } a.coef[i] ^= 1 << b; one_act_code(a, id); }
}

/* ================= P15 samplers ================= */
static void cmp_mono(const Mono &want, const Bytes &c, const std::vector<u16> &p) {
    std::vector<char> seen(P.N, 0); bool bij = true; for (auto v : p) { if (v >= P.N || seen[v]) { bij = false; break; } seen[v] = 1; }
    if (!bij) { viol("sampled permutation is not a bijection"); return; }
    for (int i = 0; i < P.N; i++) if (c[i] < 1 || c[i] > 126) { viol("sampled coefficient %d is %d", i, c[i]); return; }
    if (p != want.perm) { size_t i = 0; while (p[i] == want.perm[i]) i++; viol("sampled permutation differs at %zu", i); } else if (c != want.coef) { size_t i = 0; while (c[i] == want.coef[i]) i++; viol("sampled coefficient %zu is %d, specified %d", i, c[i], want.coef[i]); }
}
/* all three samplers on the same stream */
static void three(const Bytes &stream, u64 id, int which = 7) {
    Prng r(id); Bytes seed = r.bytes(2*P.SEED), salt = r.bytes(P.H()), c(P.N); std::vector<u16> p(P.N); int round = (int)(r.next() % 65536); env_reset();
    if (which & 1) { Bytes in(seed.begin(), seed.begin() + P.SEED); in.insert(in.end(), salt.begin(), salt.end()); in.push_back((u8)round); in.push_back((u8)(round >> 8)); env_script(P.xof(), in.data(), in.size(), stream.data(), stream.size());
        g_mono_salt(c.data(), p.data(), seed.data(), salt.data(), round); cmp_mono(mono_ephem(P, seed.data(), salt.data(), round), c, p); C.transitions++; C.traces++; }
    if (which & 2) { env_script(P.xof(), seed.data(), seed.size(), stream.data(), stream.size()); g_mono_prikey(c.data(), p.data(), seed.data()); cmp_mono(mono_prikey(P, seed.data()), c, p); C.transitions++; C.traces++; }
    if (which & 4) { Bytes s2 = r.bytes(48); env_script(P.xof(), s2.data(), s2.size(), stream.data(), stream.size()); g_seed(s2.data(), 48); g_mono_rnd(c.data(), p.data()); Xof x(P.xof(), s2.data(), 48); cmp_mono(mono_sample(P, x), c, p); C.transitions++; C.traces++; }
}
static Bytes stream_of(const Bytes &fields, const std::vector<u32> &draws) { Bytes b; enc_fields(b, fields); for (u32 d : draws) put32(b, d); return b; }
static void e_sampler(int step) {
    const int N = P.N; u64 id = 0; std::vector<u32> nodraw(N, 0); auto base = [&](u64 s) { Bytes f; for (int i = 0; i < N; i++) f.push_back((u8)((i + s) % 126)); return f; };
    /* every raw value in every field position of a word; rejects first */
    for (int v = 0; v < 128; v++) for (int pos = 0; pos < 18; pos++) { id++; if (!scn("raw value %d in field %d", v, pos)) continue; Bytes f = base(v); f.insert(f.begin() + std::min(pos, N - 1), (u8)v); three(stream_of(f, nodraw), id); }
    /* every pattern of rejections in the first and in the last word */
    for (int m = 0; m < 512; m++) for (int last = 0; last < 2; last++) { id++; if (!scn("rejection pattern %03x in the %s word", m, last ? "last" : "first")) continue; Bytes f = base(0), w; for (int i = 0; i < 9; i++) w.push_back(m >> i & 1 ? (u8)(126 + (i & 1)) : (u8)(i*14)); size_t at = last ? std::max(0, (N - 1)/9*9) : 0; if (at > f.size()) at = f.size(); f.insert(f.begin() + at, w.begin(), w.end()); Prng r(id); std::vector<u32> d(N); for (auto &x : d) x = (u32)r.next(); three(stream_of(f, d), id); }
    /* every swap: one nonzero draw, and draws far beyond the range */
    for (int i = 0; i < N; i += (i < 6 || i > N - 6) ? 1 : step) for (int r = 0; r < N - i; r += (r < 4 || r > N - i - 4) ? 1 : step) { id++; if (!scn("shuffle step %d draws %d", i, r)) continue; auto d = nodraw; d[i] = (u32)r; three(stream_of(base(id), d), id, 1 + 2*(id % 3 == 0) + 4*(id % 5 == 0)); }
    for (int i = 0; i < N; i++) for (int k = 0; k < 6; k++) { id++; if (!scn("shuffle step %d, wide draw %d", i, k)) continue; const u32 m = N - i; u32 v = k == 0 ? 0xFFFFFFFFu : k == 1 ? 0x80000000u : k == 2 ? m : k == 3 ? 0xFFFFFFFFu/m*m : k == 4 ? 0xFFFFFFFFu/m*m - 1 : 65536u*m + m - 1; auto d = nodraw; d[i] = v; three(stream_of(base(id), d), id, 1 << id % 3); }
    for (int k = 0; k < 4; k++) { id++; if (!scn("all draws %s", k == 0 ? "zero" : k == 1 ? "ones" : k == 2 ? "maximal" : "mixed")) continue; std::vector<u32> d(N); Prng r(id); for (int i = 0; i < N; i++) d[i] = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? (u32)(N - i - 1) : (u32)r.next(); three(stream_of(base(id), d), id); }
    /* long runs of rejection */
    for (int n : {9, 90, 900, 9000}) { id++; if (!scn("%d rejections in a row", n)) continue; Bytes f(n, 127), b = base(3); f.insert(f.end(), b.begin(), b.end()); three(stream_of(f, nodraw), id); }
    /* dependence on the whole seed, salt and round number (true XOF) */
    Prng r0(4711); Bytes seed = r0.bytes(2*P.SEED), salt = r0.bytes(P.H());
    std::map<Bytes, std::string> seen;
    auto ephem = [&](const Bytes &sd, const Bytes &st, int round, const char *what, int k) {
        if (!scn("ephemeral monomial, %s %d", what, k)) return;
        env_reset(); Bytes c(N); std::vector<u16> p(N); g_mono_salt(c.data(), p.data(), sd.data(), st.data(), round); C.transitions++; C.traces++; Mono w = mono_ephem(P, sd.data(), st.data(), round); cmp_mono(w, c, p);
        Bytes key = c; for (auto v : p) put16(key, v); auto it = seen.find(key); std::string me = std::string(what) + std::to_string(k); if (it != seen.end() && N > 12) viol("the same monomial for %s and %s", me.c_str(), it->second.c_str()); seen[key] = me; };
    ephem(seed, salt, 0, "base", 0);
    for (int k = 0; k < 8*P.SEED; k++) { Bytes s = seed; s[k/8] ^= 1 << k % 8; ephem(s, salt, 0, "seed bit", k); }
    for (int k = 0; k < 8*P.H(); k++) { Bytes s = salt; s[k/8] ^= 1 << k % 8; ephem(seed, s, 0, "salt bit", k); }
    for (int k = 1; k < P.T; k++) ephem(seed, salt, k, "round", k);
    seen.clear();
    for (int k = -1; k < 16*P.SEED; k++) { if (!scn("secret monomial, seed bit %d", k)) continue; env_reset(); Bytes s = seed; if (k >= 0) s[k/8] ^= 1 << k % 8; Bytes c(N); std::vector<u16> p(N); g_mono_prikey(c.data(), p.data(), s.data()); C.transitions++; C.traces++; cmp_mono(mono_prikey(P, s.data()), c, p); Bytes key = c; for (auto v : p) put16(key, v); if (seen.count(key) && N > 12) viol("the same secret monomial for two seeds differing in bit %d", k); seen[key] = ""; }
}
/* small N: every outcome of the shuffle occurs equally often over all draws */
static void e_shuffle_tiny() {
    const int N = P.N; std::map<std::vector<u16>, u64> count; u64 total = 1; for (int i = 0; i < N; i++) total *= N - i;
    Bytes f(N, 0);
    for (u64 x = 0; x < total; x++) { if (!scn("shuffle draws number %llu", (unsigned long long)x)) continue; std::vector<u32> d(N, 0); u64 y = x; for (int i = 0; i < N; i++) { d[i] = (u32)(y % (N - i)) + (u32)((N - i)*(x % 3)); y /= N - i; }
        env_reset(); Prng r(x); Bytes seed = r.bytes(2*P.SEED), c(N), st = stream_of(f, d); std::vector<u16> p(N); env_script(P.xof(), seed.data(), seed.size(), st.data(), st.size()); g_mono_prikey(c.data(), p.data(), seed.data()); C.transitions++; cmp_mono(mono_prikey(P, seed.data()), c, p); count[p]++; }
    if (C.nshards == 1 && C.only < 0 && C.every == 1) { if (count.size() != total) viol("only %zu of %llu permutations are reached", count.size(), (unsigned long long)total); for (auto &e : count) if (e.second != 1) viol("a permutation is reached %llu times", (unsigned long long)e.second); }
}
static void e_code_sampler() {
    const int K = P.K, R = P.N - P.K; u64 id = 0;
    auto go = [&](const Bytes &stream, bool script, u64 s) { env_reset(); Prng r(s); Bytes seed = r.bytes(P.SEED), a((size_t)P.N*K); if (script) env_script(P.xof(), seed.data(), seed.size(), stream.data(), stream.size()); g_set_poison(POISON[s & 3]); g_sf_expand(a.data(), seed.data()); C.transitions++; C.traces++; Mat w = g0_expand(P, seed.data()); if (w.a != a) { size_t i = 0; while (w.a[i] == a[i]) i++; viol("expanded code differs at row %zu column %zu: %d, specified %d", i/P.N, i % P.N, a[i], w.a[i]); } };
    for (int v = 0; v < 128; v++) for (int pos = 0; pos < 9; pos++) { id++; if (!scn("raw value %d in field %d of the code stream", v, pos)) continue; Bytes f; for (int i = 0; i < 3*R; i++) f.push_back((u8)((i + v) % 127)); f.insert(f.begin() + pos, (u8)v); f.insert(f.begin() + R/2 + pos, (u8)v); Bytes b; enc_fields(b, f); go(b, true, id); }
    for (int n : {1, 9, 100, 1000}) { id++; if (!scn("%d rejections in the code stream", n)) continue; Bytes f(n, 127), b; for (int i = 0; i < R; i++) f.push_back((u8)(i % 127)); f.insert(f.end(), n, 127); enc_fields(b, f); go(b, true, id); }
    for (int k = 0; k < 8*P.SEED; k += 3) { id++; if (scn("code from true stream %d", k)) go(Bytes(), false, 100000 + k); }
}

/* ================= P16 monomial algebra ================= */
typedef std::vector<Bytes> Full;       /* N x N */
static Bytes cat_mono(const Mono &m) { Bytes b = m.coef; for (auto v : m.perm) put16(b, v); return b; }
static Mono g_mul(const Mono &a, const Mono &b) { Mono r; r.perm.resize(P.N); r.coef.resize(P.N); g_mono_mul(r.coef.data(), r.perm.data(), a.coef.data(), a.perm.data(), b.coef.data(), b.perm.data()); C.transitions++; return r; }
static Mono g_inv(const Mono &a) { Mono r; r.perm.resize(P.N); r.coef.resize(P.N); g_mono_inv(r.coef.data(), r.perm.data(), a.coef.data(), a.perm.data()); C.transitions++; return r; }
static Mono mat_mul(const Mono &a, const Mono &b) {          /* from full matrices: (AB)[i][j] = sum A[i][k] B[k][j] */
    Mono r; r.perm.resize(P.N); r.coef.resize(P.N); for (int i = 0; i < P.N; i++) { int k = a.perm[i]; r.perm[i] = b.perm[k]; r.coef[i] = (u8)(a.coef[i]*b.coef[k] % 127); } return r; }
static void one_inv(const Mono &a) { Mono i = g_inv(a), id = mono_id(); if (!same(i, mono_inverse(a))) { viol("inverse of%s is%s", showm(a).c_str(), showm(i).c_str()); return; } if (!same(g_mul(a, i), id) || !same(g_mul(i, a), id)) viol("inverse does not cancel for%s", showm(a).c_str()); if (!same(g_mul(a, id), a) || !same(g_mul(id, a), a)) viol("identity is not neutral for%s", showm(a).c_str()); }
static void one_mul(const Mono &a, const Mono &b) { Mono r = g_mul(a, b); C.traces++; if (!same(r, mat_mul(a, b))) viol("product of%s and%s is%s", showm(a).c_str(), showm(b).c_str(), showm(r).c_str()); }
static void one_compose(const Mono &s, const Action &in) {
    Bytes c(P.K); std::vector<u16> p(P.K); g_compose(c.data(), p.data(), s.coef.data(), s.perm.data(), in.coef.data(), in.src.data()); C.transitions++; C.traces++;
    Action w = action_compose(P, s, in); if (p != w.src || c != w.coef) viol("composed response differs for monomial%s", showm(s).c_str());
}
static void one_apply(const Mat &g, const Mono &a, const Mono &b) {
    if (!g_monomul) return;
    Bytes x((size_t)P.N*P.K), y(x), z(x); g_monomul(x.data(), g.a.data(), a.coef.data(), a.perm.data()); Mat w = mono_apply(g, a); C.transitions++; C.traces++;
    if (w.a != x) { viol("applying%s to a generator matrix is wrong", showm(a).c_str()); return; }
    g_monomul(y.data(), x.data(), b.coef.data(), b.perm.data()); Mono ab = g_mul(a, b); g_monomul(z.data(), g.a.data(), ab.coef.data(), ab.perm.data()); C.transitions += 2;
    if (y != z) viol("applying the product of%s and%s differs from applying them in turn", showm(a).c_str(), showm(b).c_str());
}
static void all_monos(std::vector<Mono> &out, const std::vector<int> &vals) {
    std::vector<u16> p(P.N); std::iota(p.begin(), p.end(), 0);
    do { u64 n = 1; for (int i = 0; i < P.N; i++) n *= vals.size(); for (u64 x = 0; x < n; x++) { Mono m; m.perm = p; m.coef.resize(P.N); u64 y = x; for (auto &c : m.coef) { c = (u8)vals[y % vals.size()]; y /= vals.size(); } out.push_back(m); } } while (std::next_permutation(p.begin(), p.end()));
}
static void e_alg_tiny(const std::vector<int> &vals, bool triples) {
    std::vector<Mono> m; all_monos(m, vals); const int N = P.N, K = P.K; Mat g(K, N); rand_mat(g, 9);
    Mono e; e.perm.resize(N); e.coef.resize(N); g_mono_id(e.coef.data(), e.perm.data()); if (scn("identity")) { if (!same(e, mono_id())) viol("identity is%s", showm(e).c_str()); }
    for (size_t i = 0; i < m.size(); i++) { if (scn("inverse, monomial %zu", i)) one_inv(m[i]); }
    for (size_t i = 0; i < m.size(); i++) { if (!scn("monomial %zu with every other", i)) continue; for (size_t j = 0; j < m.size(); j++) { one_mul(m[i], m[j]); if (triples || j % 7 == i % 7) one_apply(g, m[i], m[j]); if (triples && j % 5 == 0) for (size_t k = 0; k < m.size(); k += 5) if (!same(g_mul(g_mul(m[i], m[j]), m[k]), g_mul(m[i], g_mul(m[j], m[k])))) viol("product is not associative"); } }
    /* every response composed with every monomial */
    std::vector<Action> acts; std::vector<u16> p(N); std::iota(p.begin(), p.end(), 0);
    std::set<std::vector<u16>> firsts; do { firsts.insert(std::vector<u16>(p.begin(), p.begin() + K)); } while (std::next_permutation(p.begin(), p.end()));
    for (auto &f : firsts) { u64 n = 1; for (int i = 0; i < K; i++) n *= vals.size(); for (u64 x = 0; x < n; x++) { Action a; a.src = f; a.coef.resize(K); u64 y = x; for (auto &c : a.coef) { c = (u8)vals[y % vals.size()]; y /= vals.size(); } acts.push_back(a); } }
    for (size_t i = 0; i < m.size(); i++) { if (scn("composition with monomial %zu", i)) for (auto &a : acts) one_compose(m[i], a); }
}
static void e_alg_full(int step) {
    const int N = P.N, K = P.K; std::vector<Mono> m; for (int k = 0; k <= 6; k++) for (int c = 0; c < 5; c++) m.push_back(mono_of(k, N/3 + c, c, k*5 + c)); for (int i = 0; i < 6; i++) m.push_back(mono_of(3, 0, 3, 100 + i));
    for (int r = 1; r < N; r += step*9) m.push_back(mono_of(2, r, r % 5, r));
    Mat g = code_struct(0, 0, 5); u64 id = 0;
    for (auto &a : m) { id++; if (scn("inverse of monomial %llu", (unsigned long long)id)) one_inv(a); }
    for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m.size(); j++) { if (!scn("monomials %zu and %zu", i, j)) continue; g_set_poison(POISON[(i + j) & 3]); one_mul(m[i], m[j]); if ((i*m.size() + j) % (5*step) == 0) one_apply(g, m[i], m[j]); Action a; a.src.assign(m[j].perm.begin(), m[j].perm.begin() + K); a.coef.assign(m[j].coef.begin(), m[j].coef.begin() + K); one_compose(m[i], a); }
    /* every coefficient pair at every position */
    for (int s = 0; s < 126; s++) for (int t = 0; t < 126; t += std::max(1, 126/std::max(1, N/126 + 1))/2 + 1) { if (!scn("coefficient shifts %d, %d", s, t)) continue; Mono a = mono_of(s % 7, s, 0, s), b = mono_of(t % 7, t, 0, t); for (int i = 0; i < N; i++) { a.coef[i] = (u8)(1 + (i + s) % 126); b.coef[a.perm[i]] = (u8)(1 + (i*3 + t + i/126) % 126); } one_mul(a, b); if (t == 0) one_inv(a); Action x; x.src.assign(b.perm.begin(), b.perm.begin() + K); x.coef.assign(b.coef.begin(), b.coef.begin() + K); one_compose(a, x); }
}

/* ================= P17 validity predicate ================= */
static void e_valid(int step) {
    const int K = P.K, N = P.N; const int maxidx = P.permbits > 8 ? 65536 : 256; 
    auto base = [&](int k) { Action a; Mono m = mono_of(k == 0 ? 0 : k == 1 ? 1 : 3, 0, k == 0 ? 2 : 3, k); a.src.assign(m.perm.begin(), m.perm.begin() + K); a.coef.assign(m.coef.begin(), m.coef.begin() + K); return a; };
    auto go = [&](const Action &a, const char *w, int x, int y) { int r = g_valid(a.coef.data(), a.src.data()); C.transitions++; C.traces++; bool want = action_valid(P, a); if ((r != 0) != want) viol("%s (%d, %d): judged %s", w, x, y, r ? "valid" : "not valid"); };
    for (int k = 0; k < 4; k++) if (scn("well-formed response %d", k)) go(base(k), "well-formed response", k, 0);
    for (int i = 0; i < K; i++) { if (scn("every coefficient value at %d", i)) for (int v = 0; v < 256; v++) for (int k = 0; k < 2; k++) { Action a = base(k); a.coef[i] = (u8)v; go(a, "coefficient", i, v); }
        if (scn("every column index at %d", i)) { Action a = base(1), b = base(2); for (int v = 0; v < maxidx; v += v < N + 4 || v > maxidx - 4 || v < 2*N ? 1 : 17*step) { Action x = a, y = b; x.src[i] = (u16)v; y.src[i] = (u16)v; go(x, "column index", i, v); go(y, "column index", i, v); } }
        if (scn("index of %d repeated everywhere", i)) for (int j = 0; j < K; j++) if (i != j) for (int k = 0; k < 2; k++) { Action a = base(k); a.src[j] = a.src[i]; if (k) a.coef[j] = a.coef[i]; go(a, "repeated index", i, j); } }
    for (int v = 0; v < 256; v++) if (scn("all coefficients %d", v)) { Action a = base(1); std::fill(a.coef.begin(), a.coef.end(), (u8)v); go(a, "all coefficients", v, 0); }
    for (int v = 0; v < N; v++) if (scn("all indices %d", v)) { Action a = base(1); std::fill(a.src.begin(), a.src.end(), (u16)v); go(a, "all indices", v, 0); }
}

/* ================= P08 seed tree ================= */
static void one_path(const Tree &t, const Bytes &flat, const Bytes &hid, const Bytes &salt, bool rebuild = true) {
    auto nodes = path_nodes(P, hid); const size_t S = P.SEED, nn = 2*P.leaves() - 1; Bytes out((nodes.size() + 4)*S + 64, 0xEE);
    unsigned n = g_tree_path(flat.data(), hid.data(), out.data()); C.transitions++; C.traces++;
    if (n != nodes.size()) { viol("%u seeds published, the minimum is %zu", n, nodes.size()); return; }
    for (size_t k = 0; k < n; k++) if (memcmp(&out[k*S], t.lv[nodes[k].first][nodes[k].second].data(), S)) { viol("published seed %zu is not node (%d,%d)", k, nodes[k].first, nodes[k].second); return; }
    for (size_t i = n*S; i < out.size(); i++) if (out[i] != 0xEE) { viol("more than %u seeds are written", n); return; }
    if (!rebuild) return;
    Exact pub(n*S); memcpy(pub.p, out.data(), n*S); Bytes tr(nn*S, (u8)(C.scn_id*91)); memset(tr.data(), 0, 0);
    g_tree_rebuild(tr.data(), hid.data(), pub.p, salt.data()); C.transitions++;
    for (int i = 0; i < P.T; i++) if (!hid[i] && memcmp(&tr[((size_t)P.leaves() - 1 + i)*S], t.lv[P.depth()][i].data(), S)) { viol("seed of open round %d is rebuilt wrongly", i); return; }
    /* hidden seeds are nowhere in what the verifier rebuilt */
    for (int i = 0; i < P.T; i++) if (hid[i] && !memcmp(&tr[((size_t)P.leaves() - 1 + i)*S], t.lv[P.depth()][i].data(), S)) { viol("the verifier obtains the seed of hidden round %d", i); return; }
}
struct TreeBase { Tree t; Bytes flat, root, salt; };
static TreeBase tree_base(u64 s) {
    TreeBase b; Prng r(s); b.root = r.bytes(P.SEED); b.salt = r.bytes(P.H()); env_reset(); b.t = tree_build(P, b.root.data(), b.salt.data()); b.flat.assign((2*(size_t)P.leaves() - 1)*P.SEED, 0); 
    g_tree_gen(b.flat.data(), b.root.data(), b.salt.data()); C.transitions++;
    for (int d = 0; d <= P.depth(); d++) for (size_t i = 0; i < b.t.lv[d].size(); i++) if (memcmp(&b.flat[(((size_t)1 << d) - 1 + i)*P.SEED], b.t.lv[d][i].data(), P.SEED)) { viol("seed tree node (%d,%zu) differs from the specified one", d, i); return b; }
    return b;
}
/* hidden sets always have the prescribed weight W: that is all the callers can ask for */
static void e_tree_small() {
    TreeBase b = tree_base(1); const int T = P.T, W = P.W;
    for (u64 x = ((u64)1 << W) - 1; x < (u64)1 << T; ) {
        if (scn("hidden set %llx", (unsigned long long)x)) { Bytes h(T); for (int i = 0; i < T; i++) h[i] = x >> i & 1; one_path(b.t, b.flat, h, b.salt); }
        u64 c = x & -x, r = x + c; x = (((r ^ x) >> 2) / c) | r; }
}
static void e_tree_gen() {
    for (int i = 0; i < 6; i++) if (scn("seed tree %d", i)) tree_base(100 + i);
    Prng r(77); Bytes root = r.bytes(P.SEED), salt = r.bytes(P.H()); const size_t nn = 2*(size_t)P.leaves() - 1; Bytes f0(nn*P.SEED), f1(nn*P.SEED); env_reset(); g_tree_gen(f0.data(), root.data(), salt.data());
    for (int k = 0; k < 8*P.SEED + 8*P.H(); k++) { if (!scn("seed tree with input bit %d changed", k)) continue; Bytes a = root, s = salt; if (k < 8*P.SEED) a[k/8] ^= 1 << k % 8; else s[(k - 8*P.SEED)/8] ^= 1 << k % 8; g_tree_gen(f1.data(), a.data(), s.data()); C.transitions++; for (size_t i = 1; i < nn; i++) if (!memcmp(&f0[i*P.SEED], &f1[i*P.SEED], P.SEED)) { viol("tree node %zu does not depend on bit %d of root and salt", i, k); break; } }
}
static void e_tree_full(int step) {
    TreeBase b = tree_base(2); const int T = P.T, W = P.W; auto go = [&](const Bytes &h) { int n = 0; for (u8 v : h) n += v != 0; if (n != W) { fprintf(stderr, "harness: weight %d\n", n); exit(2); } one_path(b.t, b.flat, h, b.salt); };
    for (int a = 0; a < T; a++) if (scn("window of hidden rounds from %d", a)) { Bytes h(T, 0); for (int i = 0; i < W; i++) h[(a + i) % T] = 1; go(h); }
    if (W > 1) for (int a = 0; a < T; a += step) for (int c = 0; c < T; c += step) if ((c - a + T) % T >= W - 1) if (scn("window from %d and round %d", a, c)) { Bytes h(T, 0); for (int i = 0; i < W - 1; i++) h[(a + i) % T] = 1; h[c] = 1; go(h); }
    for (int c = 0; c < W; c += 1 + step/4) for (int g = 1; g + W <= T; g = g*2 + 1) for (int a = 0; a < 2; a++) if (scn("two windows, %d apart after %d, end %d", g, c, a)) { Bytes h(T, 0); for (int i = 0; i < W; i++) { int p = i + (i >= c ? g : 0); h[a ? T - 1 - p : p] = 1; } go(h); }
    for (int d = 1; d < T; d++) for (int o : {0, 1, d/2, T - 1}) if (scn("every %dth round from %d", d, o)) { Bytes h(T, 0); int p = o % T, n = 0; while (n < W) { while (h[p]) p = (p + 1) % T; h[p] = 1; n++; p = (p + d) % T; } go(h); }
    /* whole subtrees open, as far as the weight allows */
    for (int x = 0; x <= P.depth(); x++) for (int i = 0; i < 1 << x; i += x > 5 ? 1 + step/3 : 1) { int w = P.leaves() >> x; if ((long)i*w >= T) break; if (scn("subtree (%d,%d) open first", x, i)) { Bytes h(T, 0); int n = 0; for (int k = 0; k < T && n < W; k++) { int p = (k*37 + i) % T; for (int g = 0; g < T && (h[p] || (p/w == i && g < T - w)); g++) p = (p + 1) % T; if (!h[p]) { h[p] = 1; n++; } } for (int k = 0; n < W; k++) if (!h[k]) { h[k] = 1; n++; } go(h); }
        if (scn("subtree (%d,%d) hidden first", x, i)) { Bytes h(T, 0); int n = 0; for (int k = i*w; k < (i+1)*w && k < T && n < W; k++) { h[k] = 1; n++; } for (int k = 0; n < W; k++) { int p = (int)((long)k*101 % T); while (h[p]) p = (p + 1) % T; h[p] = 1; n++; } go(h); } }
    PathDP dp(P); Counts all = dp.all(W); for (int c = 0; c < 1024; c++) if (all[c]) for (int f = 0; f < 3; f++) if (scn("hidden set publishing %d seeds, variant %d", c, f)) go(dp.hidden(W, c, 17*c + f*1001));
}

/* ================= P10 challenge ================= */
static void one_chal(const Bytes &raw, u64 id) {
    Prng r(id); Bytes dig = r.bytes(P.H()); env_reset(); env_script(P.xof(), dig.data(), dig.size(), raw.data(), raw.size()); Bytes f(P.T, 0xEE); g_challenge(f.data(), dig.data()); C.transitions++; C.traces++;
    Bytes w = challenge(P, dig.data()); int nz = 0, bad = 0; for (u8 v : f) { nz += v != 0; bad += v >= P.NK; }
    if (nz != P.W || bad) { viol("challenge has weight %d (prescribed %d), %d invalid key indices", nz, P.W, bad); return; }
    if (f != w) { size_t i = 0; while (f[i] == w[i]) i++; viol("challenge differs at round %zu: %d, specified %d", i, f[i], w[i]); }
}
static void e_chal(int step) {
    const int T = P.T, W = P.W; int vb = bits_for(P.NK - 1); u64 id = 0;
    auto tail = [&](Bytes &b, int from) { for (int i = 0; i < T; i++) put16(b, (1 + (i + from) % (P.NK - 1)) | (u32)((i*7 + from) % T) << vb); for (int i = 0; i < T; i++) put16(b, 1 | (u32)i << vb); };
    /* every 16-bit draw, first and after some rounds have been placed */
    for (int st : {0, 1, W - 1}) { if (st < 0 || (st == W - 1 && W < 3 && st)) continue; for (u32 d = 0; d < 65536; d += st ? step : 1) { id++; if (!scn("draw %u with %d rounds placed", d, st)) continue; Bytes b; for (int k = 0; k < st; k++) put16(b, (1 + k % (P.NK - 1)) | (u32)(T - 1 - k) << vb); put16(b, d); tail(b, (int)(d % 13)); one_chal(b, id); } }
    /* every position drawn again after it was placed, with the same and another index */
    for (int p = 0; p < T; p++) for (int v = 0; v < 1 << vb; v++) for (int f = 1; f < P.NK; f += P.NK > 3 ? 3 : 1) { id++; if (!scn("round %d placed with %d, then drawn again with %d", p, f, v)) continue; Bytes b; put16(b, f | (u32)p << vb); put16(b, v | (u32)p << vb); tail(b, p); one_chal(b, id); }
    /* long runs of rejected draws of each kind */
    for (int n : {1, 7, 100, 3000, 70000}) for (int kind = 0; kind < 4; kind++) { id++; if (!scn("%d rejected draws of kind %d", n, kind)) continue; Bytes b; put16(b, 1); for (int k = 0; k < n; k++) put16(b, kind == 0 ? 0xFFFF : kind == 1 ? (u32)((k % T) << vb) : kind == 2 ? 1u : (u32)(k % 2 ? 0xFFFF : 0)); tail(b, 3); one_chal(b, id); }
    /* rounds placed in ascending, descending, strided order; every window */
    for (int s = 0; s < T; s++) for (int o = 0; o < 3; o++) { id++; if (!scn("rounds placed from %d, order %d", s, o)) continue; Bytes b; for (int k = 0; k < W; k++) put16(b, (1 + (k + s) % (P.NK - 1)) | (u32)((o == 0 ? s + k : o == 1 ? s + T - k : s + k*7) % T) << vb); tail(b, s); one_chal(b, id); }
    /* true streams, every digest bit */
    Prng r(5); Bytes dig = r.bytes(P.H()); for (int k = 0; k < 8*P.H(); k++) { if (!scn("true stream, digest bit %d", k)) continue; env_reset(); Bytes d = dig, f(T); d[k/8] ^= 1 << k % 8; g_challenge(f.data(), d.data()); C.transitions++; C.traces++; if (f != challenge(P, d.data())) viol("challenge from digest differs from the specified one"); }
}
/* one round to place: over all 16-bit draws every (round, index) is reached equally often */
static void e_chal_uniform() {
    const int T = P.T; int vb = bits_for(P.NK - 1); std::map<std::pair<int,int>, u64> cnt; (void)vb;
    if (P.W != 1) { fprintf(stderr, "harness: needs W=1\n"); exit(2); }
    for (u32 d = 0; d < 65536; d++) { if (!scn("single draw %u", d)) continue; Prng r(d); Bytes dig = r.bytes(P.H()), b; env_reset(); put16(b, d); for (int k = 0; k < 40; k++) put16(b, 0); put16(b, (u32)(T-1) << vb | 1); env_script(P.xof(), dig.data(), dig.size(), b.data(), b.size()); Bytes f(T); g_challenge(f.data(), dig.data()); C.transitions++; C.traces++; if (f != challenge(P, dig.data())) viol("challenge differs"); 
        int p = -1, v = 0; for (int i = 0; i < T; i++) if (f[i]) { p = i; v = f[i]; } if (!(p == T - 1 && v == 1)) cnt[{p, v}]++; }
    if (C.nshards == 1 && C.only < 0 && C.every == 1) { u64 c0 = cnt.begin()->second; for (auto &e : cnt) if (e.second != c0) { viol("round %d index %d is hit %llu times, others %llu", e.first.first, e.first.second, (unsigned long long)e.second, (unsigned long long)c0); break; } if (cnt.size() != (size_t)T*(P.NK - 1) - 1) viol("%zu of %d outcomes reachable", cnt.size(), T*(P.NK - 1)); }
}

int main(int argc, char **argv) {
    h_init(argc, argv); P = load_params(); std::string cmd = argv[1]; int a = argc > 2 ? atoi(argv[2]) : 1; if (a < 1) a = 1;
    std::vector<int> vals; for (int i = 2; i < argc; i++) vals.push_back(atoi(argv[i]));
    if (cmd == "scalar") e_scalar(); else if (cmd == "lanes_mul") e_lanes_mul(); else if (cmd == "lanes_rref") e_lanes_rref(); else if (cmd == "lanes_norm") e_lanes_norm();
    else if (cmd == "rref_tiny") e_rref_tiny(vals); else if (cmd == "rref_full") e_rref_full(a);
    else if (cmd == "canon_tiny") e_canon_tiny(vals); else if (cmd == "canon_full") e_canon_full(a); else if (cmd == "prepare") e_prepare(a);
    else if (cmd == "codec_rref") e_codec_rref(a); else if (cmd == "codec_tiny") e_codec_tiny(); else if (cmd == "codec_act") e_codec_act();
    else if (cmd == "sampler") e_sampler(a); else if (cmd == "shuffle_tiny") e_shuffle_tiny(); else if (cmd == "code_sampler") e_code_sampler();
    else if (cmd == "alg_tiny") e_alg_tiny(vals, P.N <= 3); else if (cmd == "alg_full") e_alg_full(a);
    else if (cmd == "valid") e_valid(a);
    else if (cmd == "tree_small") e_tree_small(); else if (cmd == "tree_gen") e_tree_gen(); else if (cmd == "tree_full") e_tree_full(a);
    else if (cmd == "chal") e_chal(a); else if (cmd == "chal_uniform") e_chal_uniform();
    else { fprintf(stderr, "unknown explorer %s\n", argv[1]); return 2; }
    return h_finish();
}
