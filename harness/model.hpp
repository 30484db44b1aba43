/* Reference model of LESS, written from the specification (algorithms 1-11 of the
 * LESS document) over runtime parameters; deliberately plain.  Randomness and
 * hashing go through the programmable environment (env.h). */
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <algorithm>
#include <numeric>
#include "env.h"

namespace model {
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef std::vector<u8> Bytes;
static const int q = 127;

inline int bits_for(u64 n) { int b = 1; while (n >> b) b++; return b; }

struct Params {
    int cat, N, K, T, W, NK, SEED, MAXPUB, permbits;
    int H() const { return 2*SEED; }
    int xof() const { return cat == 1 ? ALG_SHAKE128 : ALG_SHAKE256; }
    int sha() const { return cat == 1 ? ALG_SHA3_256 : cat == 3 ? ALG_SHA3_384 : ALG_SHA3_512; }
    int depth() const { return bits_for(T); }
    int leaves() const { return 1 << depth(); }
    int actbytes() const { return (7*K + 7)/8 + (permbits*K + 7)/8; }
    int rrefbytes() const { return (7*(N-K)*K + 7)/8 + (N + 7)/8; }
    int pkbytes() const { return SEED + (NK-1)*rrefbytes(); }
    int skbytes() const { return 3*SEED; }
    int sigbytes(int published) const { return 2*H() + W*actbytes() + published*SEED + 1; }
};

/* ---- XOF, little-endian draws ---- */
struct Xof {
    u64 c[26]; int alg;
    Xof(int a, const u8 *in, size_t n) : alg(a) { ek_init(c); ek_absorb(c, alg, in, n); ex_finalize(c, alg); }
    void read(u8 *o, size_t n) { ex_squeeze(c, alg, o, n); }
    u64 word() { u8 b[8]; read(b, 8); u64 w = 0; for (int i = 7; i >= 0; i--) w = w << 8 | b[i]; return w; }
    u32 u32le() { u8 b[4]; read(b, 4); return b[0] | b[1] << 8 | b[2] << 16 | (u32)b[3] << 24; }
    u16 u16le() { u8 b[2]; read(b, 2); return b[0] | b[1] << 8; }
};
/* n values in [lo,hi], by rejection on bit fields of 64-bit words, least significant first */
inline void sample_range(Xof &x, u8 *out, size_t n, int lo, int hi) {
    int span = hi - lo, b = bits_for(span); size_t got = 0;
    while (got < n) {
        u64 w = x.word();
        for (int f = 0; f < 64/b && got < n; f++, w >>= b) {
            int v = (int)(w & ((1u << b) - 1));
            if (v <= span) out[got++] = (u8)(v + lo);
        }
    }
}

/* ---- matrices ---- */
struct Mat { int r, c; Bytes a;
    Mat() : r(0), c(0) {}
    Mat(int r_, int c_) : r(r_), c(c_), a((size_t)r_*c_, 0) {}
    u8 *row(int i) { return &a[(size_t)i*c]; }
    const u8 *row(int i) const { return &a[(size_t)i*c]; }
    u8 &at(int i, int j) { return a[(size_t)i*c + j]; }
    u8 at(int i, int j) const { return a[(size_t)i*c + j]; }
};
inline int inv_mod(int x) { x %= q; for (int y = 1; y < q; y++) if (x*y % q == 1) return y; return 0; }
inline int inv_tab(int x) { static int t[q]; static bool init = false; if (!init) { for (int i = 0; i < q; i++) t[i] = inv_mod(i); init = true; } return t[x % q]; }

/* unique RREF; pivots[] lists pivot columns in order; returns rank */
__attribute__((optimize("O3"))) inline int rref(Mat &m, std::vector<int> &piv) {
    piv.clear(); int r = 0;
    for (int c = 0; c < m.c && r < m.r; c++) {
        int p = -1;
        for (int i = r; i < m.r; i++) if (m.at(i, c)) { p = i; break; }
        if (p < 0) continue;
        if (p != r) std::swap_ranges(m.row(p), m.row(p) + m.c, m.row(r));
        int s = inv_tab(m.at(r, c)); u8 *pr = m.row(r);
        for (int j = 0; j < m.c; j++) pr[j] = (u8)((u16)(pr[j]*s) % q);
        for (int i = 0; i < m.r; i++) {
            if (i == r || !m.at(i, c)) continue;
            const u16 f = (u16)(q - m.at(i, c)); u8 *ir = m.row(i);
            const u8 *p2 = pr; const int nc = m.c;
            for (int j = 0; j < nc; j++) ir[j] = (u8)((u16)((u16)(f*p2[j]) + ir[j]) % 127);
        }
        piv.push_back(c); r++;
    }
    return r;
}

/* ---- monomials: column i of G goes to column perm[i], scaled by coef[i] ---- */
struct Mono { std::vector<u16> perm; Bytes coef; };
inline Mono mono_sample(const Params &P, Xof &x) {
    Mono m; m.coef.resize(P.N); m.perm.resize(P.N);
    sample_range(x, m.coef.data(), P.N, 1, q-1);
    std::vector<u32> r(P.N); for (auto &v : r) v = x.u32le();
    std::iota(m.perm.begin(), m.perm.end(), 0);
    for (int i = 0; i + 1 < P.N; i++) std::swap(m.perm[i], m.perm[i + r[i] % (u32)(P.N - i)]);
    return m;
}
inline Mono mono_prikey(const Params &P, const u8 *seed) { Xof x(P.xof(), seed, 2*P.SEED); return mono_sample(P, x); }
inline Mono mono_ephem(const Params &P, const u8 *seed, const u8 *salt, unsigned round) {
    Bytes in(seed, seed + P.SEED); in.insert(in.end(), salt, salt + P.H());
    in.push_back(round & 255); in.push_back(round >> 8 & 255);
    Xof x(P.xof(), in.data(), in.size()); return mono_sample(P, x);
}
inline Mono mono_inverse(const Mono &a) {
    Mono b; size_t n = a.perm.size(); b.perm.resize(n); b.coef.resize(n);
    for (size_t i = 0; i < n; i++) { b.perm[a.perm[i]] = (u16)i; b.coef[a.perm[i]] = (u8)inv_tab(a.coef[i]); }
    return b;
}
inline Mat mono_apply(const Mat &g, const Mono &m) {
    Mat o(g.r, g.c);
    for (int j = 0; j < g.c; j++) for (int i = 0; i < g.r; i++) o.at(i, m.perm[j]) = (u8)(g.at(i, j)*m.coef[j] % q);
    return o;
}
/* response: destination column j of the information set comes from source column
 * src[j], scaled by coef[j] */
struct Action { std::vector<u16> src; Bytes coef; };
inline bool action_valid(const Params &P, const Action &a) {
    std::vector<char> seen(P.N, 0);
    for (int i = 0; i < P.K; i++) {
        if (a.coef[i] < 1 || a.coef[i] > q-1 || a.src[i] >= P.N || seen[a.src[i]]) return false;
        seen[a.src[i]] = 1;
    }
    return true;
}
/* response for secret key matrix: (first the secret monomial s on G_i's columns, then in) */
inline Action action_compose(const Params &P, const Mono &s, const Action &in) {
    std::vector<int> from(P.N);
    for (int i = 0; i < P.N; i++) from[s.perm[i]] = i;
    Action o; o.src.resize(P.K); o.coef.resize(P.K);
    for (int j = 0; j < P.K; j++) { int c = from[in.src[j]]; o.src[j] = (u16)c; o.coef[j] = (u8)(in.coef[j]*s.coef[c] % q); }
    return o;
}

/* ---- canonical commitment ---- */
inline Mat canonical(const Mat &g, const std::vector<int> &piv) {
    std::vector<char> isp(g.c, 0); for (int p : piv) isp[p] = 1;
    std::vector<Bytes> cols;
    for (int j = 0; j < g.c; j++) if (!isp[j]) {
        Bytes c(g.r); int lead = 0;
        for (int i = 0; i < g.r; i++) { c[i] = g.at(i, j); if (!lead && c[i]) lead = c[i]; }
        int s = lead ? inv_tab(lead) : 0;
        for (auto &v : c) v = (u8)(v*s % q);
        cols.push_back(c);
    }
    std::sort(cols.begin(), cols.end());
    Mat v(g.r, (int)cols.size());
    for (int j = 0; j < v.c; j++) for (int i = 0; i < v.r; i++) v.at(i, j) = cols[j][i];
    return v;
}
inline bool prepare(const Params &P, const Mat &g0, const Mono &m, Mat &V, Action &bar) {
    Mat g = mono_apply(g0, m); std::vector<int> piv;
    if (rref(g, piv) < P.K) return false;
    std::vector<int> from(P.N); for (int i = 0; i < P.N; i++) from[m.perm[i]] = i;
    bar.src.assign(P.K, 0); bar.coef.assign(P.K, 0);
    for (int t = 0; t < P.K; t++) { bar.src[t] = (u16)from[piv[t]]; bar.coef[t] = m.coef[from[piv[t]]]; }
    V = canonical(g, piv); return true;
}
inline Mat action_apply(const Params &P, const Mat &g, const Action &a) {
    Mat o(g.r, g.c); std::vector<char> used(g.c, 0); int d = P.K;
    for (int j = 0; j < P.K; j++) { used[a.src[j]] = 1; for (int i = 0; i < g.r; i++) o.at(i, j) = (u8)(g.at(i, a.src[j])*a.coef[j] % q); }
    for (int s = 0; s < g.c; s++) if (!used[s]) { for (int i = 0; i < g.r; i++) o.at(i, d) = g.at(i, s); d++; }
    return o;
}

/* ---- bit packing, least significant bit first ---- */
struct BitW { Bytes b; size_t n = 0; void put(unsigned v, int w) { for (int i = 0; i < w; i++, n++) { if (n % 8 == 0) b.push_back(0); if (v >> i & 1) b[n/8] |= 1u << (n % 8); } } };
struct BitR { const u8 *b; size_t n = 0; unsigned get(int w) { unsigned v = 0; for (int i = 0; i < w; i++, n++) v |= (unsigned)(b[n/8] >> (n % 8) & 1) << i; return v; } };

inline Bytes enc_rref(const Params &P, const Mat &g, const std::vector<int> &piv) {
    std::vector<char> isp(P.N, 0); for (int p : piv) isp[p] = 1;
    BitW w; for (int j = 0; j < P.N; j++) w.put(isp[j], 1);
    while (w.n % 8) w.put(0, 1);
    for (int i = 0; i < P.K; i++) for (int j = 0; j < P.N; j++) if (!isp[j]) w.put(g.at(i, j), 7);
    w.b.resize(P.rrefbytes(), 0); return w.b;
}
/* returns false if not a well-formed reduced matrix */
inline bool dec_rref(const Params &P, const u8 *b, Mat &g) {
    BitR r{b}; std::vector<char> isp(P.N); int cnt = 0;
    for (int j = 0; j < P.N; j++) { isp[j] = (char)r.get(1); cnt += isp[j]; }
    if (cnt != P.K) return false;
    r.n = (size_t)(P.N + 7)/8*8; g = Mat(P.K, P.N);
    for (int i = 0; i < P.K; i++) { int k = 0; for (int j = 0; j < P.N; j++) if (isp[j]) g.at(i, j) = (k++ == i); else { g.at(i, j) = (u8)r.get(7); if (g.at(i, j) >= q) return false; } }
    return true;
}
inline Bytes enc_action(const Params &P, const Action &a) {
    BitW w; for (int i = 0; i < P.K; i++) w.put(a.src[i], P.permbits);
    for (int i = 0; i < P.K; i++) w.put(a.coef[i], 7);
    w.b.resize(P.actbytes(), 0); return w.b;
}
inline Action dec_action(const Params &P, const u8 *b) {
    BitR r{b}; Action a; a.src.resize(P.K); a.coef.resize(P.K);
    for (auto &v : a.src) v = (u16)r.get(P.permbits);
    for (auto &v : a.coef) v = (u8)r.get(7);
    return a;
}

/* ---- challenge ---- */
inline Bytes challenge(const Params &P, const u8 *digest) {
    Xof x(P.xof(), digest, P.H()); Bytes f(P.T, 0); int placed = 0;
    int vb = bits_for(P.NK - 1), pb = bits_for(P.T - 1);
    while (placed < P.W) {
        unsigned d = x.u16le(), v = d & ((1u << vb) - 1), p = (d >> vb) & ((1u << pb) - 1);
        if (v >= (unsigned)P.NK || p >= (unsigned)P.T || f[p]) continue;
        f[p] = (u8)v; placed += v != 0;
    }
    return f;
}

/* ---- seed tree (recursive; node = (level, index)) ---- */
struct Tree { std::vector<std::vector<Bytes>> lv; };      /* lv[d][i] */
inline void expand_node(const Params &P, const u8 *salt, const Bytes &s, Bytes &l, Bytes &r) {
    Bytes in(salt, salt + P.H()); in.insert(in.end(), s.begin(), s.end());
    Xof x(P.xof(), in.data(), in.size()); l.resize(P.SEED); r.resize(P.SEED);
    x.read(l.data(), P.SEED); x.read(r.data(), P.SEED);
}
inline Tree tree_build(const Params &P, const u8 *root, const u8 *salt) {
    Tree t; t.lv.resize(P.depth() + 1); t.lv[0].push_back(Bytes(root, root + P.SEED));
    for (int d = 0; d < P.depth(); d++) for (auto &s : t.lv[d]) { Bytes l, r; expand_node(P, salt, s, l, r); t.lv[d+1].push_back(l); t.lv[d+1].push_back(r); }
    return t;
}
/* leaf numbers covered by node (d,i): [i<<h, (i+1)<<h), h = depth-d.  Leaves >= T are unused and count as open. */
inline bool node_open(const Params &P, const Bytes &hidden, int d, int i) {
    int h = P.depth() - d; for (long l = (long)i << h; l < (long)(i + 1) << h && l < P.T; l++) if (hidden[l]) return false;
    return true;
}
/* maximal open nodes, top-down, left to right */
inline std::vector<std::pair<int,int>> path_nodes(const Params &P, const Bytes &hidden) {
    std::vector<std::pair<int,int>> r;
    for (int d = 1; d <= P.depth(); d++) for (int i = 0; i < 1 << d; i++)
        if (node_open(P, hidden, d, i) && !node_open(P, hidden, d-1, i/2)) r.push_back({d, i});
    return r;
}
inline Bytes hidden_of(const Bytes &ch) { Bytes h(ch.size()); for (size_t i = 0; i < ch.size(); i++) h[i] = ch[i] != 0; return h; }

/* ---- key generation, signing, opening ---- */
struct Rng { Xof *x; void read(u8 *o, size_t n) { x->read(o, n); } };
inline Mat g0_expand(const Params &P, const u8 *seed) {
    Xof x(P.xof(), seed, P.SEED); Mat g(P.K, P.N); Bytes row(P.N - P.K);
    for (int i = 0; i < P.K; i++) { g.at(i, i) = 1; sample_range(x, row.data(), P.N - P.K, 0, q-1); memcpy(g.row(i) + P.K, row.data(), P.N - P.K); }
    return g;
}
inline std::vector<Bytes> secret_seeds(const Params &P, const u8 *sk) {
    Xof x(P.xof(), sk, 2*P.SEED); std::vector<Bytes> s(P.NK - 1, Bytes(2*P.SEED));
    for (auto &b : s) x.read(b.data(), b.size());
    return s;
}
inline void keygen(const Params &P, Xof &rng, Bytes &pk, Bytes &sk) {
    sk.resize(3*P.SEED); rng.read(sk.data(), 2*P.SEED); rng.read(sk.data() + 2*P.SEED, P.SEED);
    pk.assign(sk.begin() + 2*P.SEED, sk.end());
    Mat g0 = g0_expand(P, pk.data());
    for (auto &s : secret_seeds(P, sk.data())) {
        Mat g = mono_apply(g0, mono_inverse(mono_prikey(P, s.data()))); std::vector<int> piv; rref(g, piv);
        Bytes e = enc_rref(P, g, piv); pk.insert(pk.end(), e.begin(), e.end());
    }
}
struct SignTrace { Bytes challenge; int published = 0; Tree tree; std::vector<std::pair<int,int>> nodes; };
inline Bytes sign(const Params &P, Xof &rng, const u8 *sk, const u8 *m, size_t mlen, SignTrace *tr = nullptr, bool with_message = true) {
    Bytes root(P.SEED), salt(P.H()); rng.read(root.data(), root.size()); rng.read(salt.data(), salt.size());
    Tree t = tree_build(P, root.data(), salt.data());
    Mat g0 = g0_expand(P, sk + 2*P.SEED);
    u64 h[26]; ek_init(h); std::vector<Action> bars(P.T);
    for (int i = 0; i < P.T; i++) {
        Mat V; prepare(P, g0, mono_ephem(P, t.lv[P.depth()][i].data(), salt.data(), i), V, bars[i]);
        ek_absorb(h, P.sha(), V.a.data(), V.a.size());
    }
    ex_absorb(h, P.sha(), m, mlen); ek_absorb(h, P.sha(), salt.data(), salt.size());
    Bytes d(P.H()); ex_digest(h, P.sha(), d.data());
    Bytes ch = challenge(P, d.data()), hid = hidden_of(ch);
    Bytes sm; if (with_message) sm.assign(m, m + mlen);
    sm.insert(sm.end(), salt.begin(), salt.end());
    auto ss = secret_seeds(P, sk);
    for (int i = 0; i < P.T; i++) if (ch[i]) {
        Bytes e = enc_action(P, action_compose(P, mono_prikey(P, ss[ch[i]-1].data()), bars[i]));
        sm.insert(sm.end(), e.begin(), e.end());
    }
    sm.insert(sm.end(), d.begin(), d.end());
    auto nodes = path_nodes(P, hid);
    for (auto &n : nodes) { auto &s = t.lv[n.first][n.second]; sm.insert(sm.end(), s.begin(), s.end()); }
    sm.push_back((u8)nodes.size());
    if (tr) { tr->challenge = ch; tr->published = (int)nodes.size(); tr->tree = t; tr->nodes = nodes; }
    return sm;
}
enum Verdict { ACCEPT = 0, TOO_SHORT, BAD_COUNT, BAD_KEY, BAD_ACTION, BAD_DIGEST };
inline int open(const Params &P, const u8 *pk, const u8 *sm, size_t smlen, Bytes *msg = nullptr, Bytes *dig_out = nullptr) {
    if (smlen < 1) return TOO_SHORT;
    int cnt = sm[smlen-1]; size_t sl = P.sigbytes(cnt);
    if (cnt > P.MAXPUB) return BAD_COUNT;
    if (smlen < sl) return TOO_SHORT;
    size_t ml = smlen - sl; const u8 *salt = sm + ml, *acts = salt + P.H(), *dig = acts + P.W*P.actbytes(), *seeds = dig + P.H();
    Bytes ch = challenge(P, dig), hid = hidden_of(ch);
    auto nodes = path_nodes(P, hid);
    if ((int)nodes.size() != cnt) return BAD_COUNT;
    std::vector<Mat> gi(P.NK);
    gi[0] = g0_expand(P, pk);
    for (int i = 1; i < P.NK; i++) if (!dec_rref(P, pk + P.SEED + (i-1)*P.rrefbytes(), gi[i])) return BAD_KEY;
    /* leaf seeds of the open rounds */
    std::vector<Bytes> leaf(P.T);
    for (size_t k = 0; k < nodes.size(); k++) {
        std::vector<Bytes> cur(1, Bytes(seeds + k*P.SEED, seeds + (k+1)*P.SEED));
        for (int d = nodes[k].first; d < P.depth(); d++) { std::vector<Bytes> nx; for (auto &s : cur) { Bytes l, r; expand_node(P, salt, s, l, r); nx.push_back(l); nx.push_back(r); } cur.swap(nx); }
        long base = (long)nodes[k].second << (P.depth() - nodes[k].first);
        for (size_t j = 0; j < cur.size(); j++) if (base + (long)j < P.T) leaf[base + j] = cur[j];
    }
    u64 h[26]; ek_init(h); int used = 0;
    for (int i = 0; i < P.T; i++) {
        Mat V;
        if (!ch[i]) { Action bar; if (!prepare(P, gi[0], mono_ephem(P, leaf[i].data(), salt, i), V, bar)) return BAD_DIGEST; }
        else {
            Action a = dec_action(P, acts + (used++)*P.actbytes());
            if (!action_valid(P, a)) return BAD_ACTION;
            Mat g = action_apply(P, gi[ch[i]], a); std::vector<int> piv; rref(g, piv);
            V = canonical(g, piv);
        }
        ek_absorb(h, P.sha(), V.a.data(), V.a.size());
    }
    ex_absorb(h, P.sha(), sm, ml); ek_absorb(h, P.sha(), salt, P.H());
    Bytes d(P.H());
    /* a verifier's digest never programs a new challenge */
    ek_finalize(h, P.sha()); ek_squeeze(h, P.sha(), d.data(), d.size());
    if (dig_out) *dig_out = d;
    if (memcmp(d.data(), dig, P.H())) return BAD_DIGEST;
    if (msg) msg->assign(sm, sm + ml);
    return ACCEPT;
}
/* the digest the verifier computes, if it gets that far */
inline bool model_digest(const Params &P, const u8 *pk, const u8 *sm, size_t smlen, Bytes &d) { d.clear(); open(P, pk, sm, smlen, nullptr, &d); return !d.empty(); }
} // namespace model
