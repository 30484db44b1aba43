/* Scheme-level executions: key generation, signing and opening of the build
 * under test, driven by scripted randomness and compared with the model. */
#pragma once
#include "hcommon.hpp"
#include "paths.hpp"

enum { M_KEY = 1, M_SIGN = 2, M_RT = 4, M_SIZE = 8, M_NODES = 16, M_RNG = 32, M_CHAL = 64, M_PURE = 128, M_CROSSOPEN = 256 };

struct KeyScripts { Bytes seed; const Mat *code = nullptr; std::vector<Mono> secrets; };
struct Key { Bytes pk, sk; KeyScripts ks; };
struct SignScripts { Bytes seed; std::vector<Mono> ephem; Bytes challenge; bool reverse = false; bool scripted_challenge = false; Bytes chal_raw; };

static Bytes seed_label(u64 a, u64 b = 0) { Prng r(a*1000003 + b); return r.bytes(48); }
static void rng_start(const Bytes &seed) { g_seed(seed.data(), (unsigned)seed.size()); }

/* the system stream started from seed must now stand exactly n bytes further */
static void rng_check(const Bytes &seed, size_t n, const char *what) {
    Xof r(P.xof(), seed.data(), seed.size()); Bytes skip(n), want(16), got(16); r.read(skip.data(), n); r.read(want.data(), 16);
    Bytes save(g_rng_size()); g_rng_get(save.data()); g_random(got.data(), 16); g_rng_set(save.data());
    if (want != got) viol("%s did not draw exactly the prescribed %zu bytes of system randomness", what, n);
}
static void program_key(const KeyScripts &k) {
    Xof r(P.xof(), k.seed.data(), k.seed.size()); Bytes sk(3*P.SEED); r.read(sk.data(), sk.size());
    if (k.code) { Bytes b = enc_code(P, *k.code); env_script(P.xof(), sk.data() + 2*P.SEED, P.SEED, b.data(), b.size()); }
    if (!k.secrets.empty()) { auto ss = secret_seeds(P, sk.data());
        for (size_t i = 0; i < ss.size() && i < k.secrets.size(); i++) { Bytes b = enc_mono(k.secrets[i]); env_script(P.xof(), ss[i].data(), ss[i].size(), b.data(), b.size()); } }
}
static void program_sign(const SignScripts &s) {
    if (!s.ephem.empty()) {
        Xof r(P.xof(), s.seed.data(), s.seed.size()); Bytes root(P.SEED), salt(P.H()); r.read(root.data(), P.SEED); r.read(salt.data(), P.H());
        Tree t = tree_build(P, root.data(), salt.data());
        for (size_t i = 0; i < s.ephem.size() && i < (size_t)P.T; i++) {
            Bytes in = t.lv[P.depth()][i]; in.insert(in.end(), salt.begin(), salt.end()); in.push_back((u8)i); in.push_back((u8)(i >> 8));
            Bytes b = enc_mono(s.ephem[i]); env_script(P.xof(), in.data(), in.size(), b.data(), b.size());
        }
    }
}
static void program_challenge(const SignScripts &s) {
    if (s.scripted_challenge) { Bytes b = s.chal_raw.empty() ? enc_challenge(P, s.challenge, s.reverse) : s.chal_raw; env_script_next_digest(P.xof(), b.data(), b.size()); }
}

/* key generation on the build under test; monitors M_KEY, M_RNG, M_SIZE */
static Key do_keygen(const KeyScripts &k, int mon) {
    Key key; key.ks = k; rng_start(k.seed);
    Buf pk(GP.pkbytes, C.scn_id % 32, (int)(C.scn_id*37 & 255)), sk(GP.skbytes, C.scn_id*7 % 32, (int)(C.scn_id*53 & 255));
    int rc = g_keypair(pk.p, sk.p); C.transitions++;
    if (rc) viol("key generation returned %d", rc);
    if ((mon & M_SIZE) && !(pk.intact() && sk.intact())) viol("key generation wrote outside its output buffers");
    if (mon & M_RNG) rng_check(k.seed, 3*P.SEED, "key generation");
    key.pk.assign(pk.p, pk.p + pk.n); key.sk.assign(sk.p, sk.p + sk.n);
    if (mon & M_KEY) {
        Xof r(P.xof(), k.seed.data(), k.seed.size()); Bytes mpk, msk; keygen(P, r, mpk, msk); C.traces++;
        if (GP.pkbytes != P.pkbytes() || GP.skbytes != P.skbytes()) viol("key sizes %d/%d, specified %d/%d", GP.pkbytes, GP.skbytes, P.pkbytes(), P.skbytes());
        if (mpk != key.pk) { size_t i = 0; while (i < mpk.size() && i < key.pk.size() && mpk[i] == key.pk[i]) i++; viol("public key differs from the specified one at byte %zu", i); }
        if (msk != key.sk) { size_t i = 0; while (i < msk.size() && i < key.sk.size() && msk[i] == key.sk[i]) i++; viol("secret key differs from the specified one at byte %zu", i); }
    }
    return key;
}
struct Signed { Bytes sm; SignTrace tr; bool have_trace = false; size_t mlen; };

static Signed do_sign(const Key &key, const SignScripts &s, const Bytes &msg, int mon) {
    Signed out; out.mlen = msg.size(); rng_start(s.seed); program_challenge(s);
    const unsigned o = C.scn_id;
    Buf sm(msg.size() + GP.sigmax, o*5 % 32, (int)(o*29 & 255)), m(msg.size(), o*11 % 32), sk(GP.skbytes, o*13 % 32);
    if (msg.size()) memcpy(m.p, msg.data(), msg.size());
    memcpy(sk.p, key.sk.data(), key.sk.size());
    unsigned long long smlen = 0xfedcba9876543210ULL;
    int rc = g_sign(sm.p, &smlen, m.p, msg.size(), sk.p); C.transitions++;
    if (rc) viol("signing returned %d", rc);
    if (!sm.intact()) viol("signing wrote outside message length plus maximum signature size");
    if ((mon & M_PURE) && (memcmp(m.p, msg.data(), msg.size()) || memcmp(sk.p, key.sk.data(), key.sk.size()))) viol("signing modified its input");
    if (mon & M_RNG) rng_check(s.seed, 3*P.SEED, "signing");
    if (smlen > msg.size() + GP.sigmax) { viol("signed length %llu exceeds message length plus advertised maximum %d", smlen, GP.sigmax); smlen = msg.size() + GP.sigmax; }
    out.sm.assign(sm.p, sm.p + smlen);
    if (mon & (M_SIGN | M_NODES | M_CHAL)) {
        program_challenge(s);
        Xof r(P.xof(), s.seed.data(), s.seed.size());
        Bytes ref = sign(P, r, key.sk.data(), msg.data(), msg.size(), &out.tr); out.have_trace = true; C.traces++;
        if ((mon & M_SIZE) && out.tr.published > GP.maxpub) viol("challenge forces %d published seeds, advertised maximum %d", out.tr.published, GP.maxpub);
        if ((mon & M_SIGN) && ref != out.sm) {
            size_t i = 0; while (i < ref.size() && i < out.sm.size() && ref[i] == out.sm[i]) i++;
            long rel = (long)i - (long)msg.size();
            viol("signed message differs from the specified one: length %zu, specified %zu, first difference at byte %ld of the signature", out.sm.size(), ref.size(), rel);
        } else if (mon & M_NODES) {
            /* the seed area holds exactly the maximal open nodes, in order, then their number */
            size_t end = out.sm.size(), cnt = out.tr.nodes.size();
            size_t area = msg.size() + 2*P.H() + (size_t)P.W*P.actbytes();
            if (end < area + 1 || (end - 1 - area) % P.SEED) viol("seed area has length %ld", (long)(end - area));
            else { size_t n = (end - 1 - area)/P.SEED;
                if (n != cnt || out.sm[end-1] != (u8)cnt) viol("%zu seeds published (count byte %d), minimum is %zu", n, out.sm[end-1], cnt);
                Bytes hid = hidden_of(out.tr.challenge);
                for (size_t k = 0; k < n; k++) {
                    const u8 *sd = &out.sm[area + k*P.SEED]; bool ok = false;
                    for (int d = 0; d <= P.depth(); d++) for (size_t i = 0; i < out.tr.tree.lv[d].size(); i++) if (!memcmp(sd, out.tr.tree.lv[d][i].data(), P.SEED)) {
                        ok = true; if (!node_open(P, hid, d, (int)i)) viol("published seed %zu is node (%d,%zu), an ancestor or seed of a hidden round", k, d, i);
                        if (k < cnt && std::make_pair(d, (int)i) != out.tr.nodes[k]) viol("published seed %zu is node (%d,%zu), expected (%d,%d)", k, d, i, out.tr.nodes[k].first, out.tr.nodes[k].second); }
                    if (!ok) viol("published seed %zu is no node of the signer's seed tree", k);
                } }
        }
        if (mon & M_CHAL) {
            int nz = 0; for (u8 v : out.tr.challenge) nz += v != 0;
            if (nz != P.W) viol("challenge weight %d", nz);
            if (s.scripted_challenge && s.chal_raw.empty() && out.tr.challenge != s.challenge) { fprintf(stderr, "harness: challenge script failed\n"); exit(9); }
        }
    }
    return out;
}
/* opening; returns rc, fills mlen/message */
struct Opened { int rc; unsigned long long mlen; Bytes m; };
static Opened (*open_hook)(const Bytes &pk, const Bytes &sm) = nullptr;      /* replaces the plain call in h_conc.cpp */
static Opened do_open(const Bytes &pk_, const Bytes &sm_, int mon = 0) {
    if (open_hook) return open_hook(pk_, sm_);
    const unsigned o = C.scn_id;
    Buf m(sm_.size(), o*3 % 32, (int)(o*41 & 255)), sm(sm_.size(), o*17 % 32), pk(pk_.size(), o*19 % 32);
    if (sm_.size()) memcpy(sm.p, sm_.data(), sm_.size());
    memcpy(pk.p, pk_.data(), pk_.size());
    Opened r; r.mlen = 0x0123456789abcdefULL; Bytes before(g_rng_size()), after(g_rng_size()); g_rng_get(before.data());
    r.rc = g_open(m.p, &r.mlen, sm.p, sm_.size(), pk.p); C.transitions++; g_rng_get(after.data());
    if (!m.intact()) viol("opening wrote outside the message buffer");
    if ((mon & M_PURE) && (memcmp(sm.p, sm_.data(), sm_.size()) || memcmp(pk.p, pk_.data(), pk_.size()))) viol("opening modified its input");
    if ((mon & M_RNG) && before != after) viol("opening changed the system random stream");
    if (r.rc == 0 && r.mlen <= sm_.size()) r.m.assign(m.p, m.p + r.mlen);
    return r;
}
static void expect_accept(const Key &key, const Signed &s, int mon = 0) {
    Opened r = do_open(key.pk, s.sm, mon);
    if (r.rc != 0) { viol("a freshly signed message is rejected (rc %d, signed length %zu, count byte %d)", r.rc, s.sm.size(), s.sm.empty() ? -1 : s.sm.back()); return; }
    if (r.mlen != s.mlen) { viol("opening returned message length %llu, signed %zu", r.mlen, s.mlen); return; }
    if (memcmp(r.m.data(), s.sm.data(), s.mlen)) viol("opening returned a different message");
}
/* verdict of the build under test against the model's; returns model verdict */
static int expect_model(const Bytes &pk, const Bytes &sm, int mon = 0) {
    Bytes mm; int v = open(P, pk.data(), sm.data(), sm.size(), &mm); C.traces++;
    Opened r = do_open(pk, sm, mon);
    if ((v == ACCEPT) != (r.rc == 0)) viol("opening %s, the specified algorithm %s (model verdict %d)", r.rc == 0 ? "accepts" : "rejects", v == ACCEPT ? "accepts" : "rejects", v);
    else if (v == ACCEPT && (r.mlen != mm.size() || r.m != mm)) viol("opening returned a wrong message");
    return v;
}

/* ---------- families of structured objects at any size ---------- */
static Mono mono_struct(int kind, int param, u64 seed) {
    Mono m; const int N = P.N; m.perm.resize(N); m.coef.assign(N, 1); std::iota(m.perm.begin(), m.perm.end(), 0); Prng r(seed*77 + kind);
    switch (kind) {
    case 0: break;                                                                     /* identity */
    case 1: std::reverse(m.perm.begin(), m.perm.end()); break;
    case 2: for (int i = 0; i < N; i++) m.perm[i] = (u16)((i + param) % N); break;       /* rotation */
    case 3: for (int i = N - 1; i > 0; i--) std::swap(m.perm[i], m.perm[r.below(i + 1)]); break;
    case 4: std::swap(m.perm[0], m.perm[param % N]); break;
    case 5: for (int i = 0; i < N; i++) m.perm[i] = (u16)(i < N/2 ? 2*i : 2*(i - N/2) + 1); break; /* interleave */
    case 6: { int a = param % N, b = (a + 1) % N; std::swap(m.perm[a], m.perm[b]); break; }
    }
    return m;
}
static void coef_struct(Mono &m, int kind, u64 seed) {
    Prng r(seed*131 + kind);
    for (size_t i = 0; i < m.coef.size(); i++) switch (kind) {
        case 0: m.coef[i] = 1; break; case 1: m.coef[i] = 126; break; case 2: m.coef[i] = (u8)(i % 126 + 1); break;
        case 3: m.coef[i] = (u8)(1 + r.below(126)); break; case 4: m.coef[i] = (u8)(i == seed % m.coef.size() ? 63 : 1); break; }
}
static Mono mono_of(int kind, int param, int ck, u64 seed) { Mono m = mono_struct(kind, param, seed); coef_struct(m, ck, seed); return m; }

static Mat code_struct(int kind, int param, u64 seed) {
    Mat g(P.K, P.N); const int K = P.K, R = P.N - P.K; Prng r(seed*991 + kind*17 + 5);
    for (int i = 0; i < K; i++) g.at(i, i) = 1;
    Bytes u(K), v(R); for (auto &x : u) x = (u8)r.below(127); for (auto &x : v) x = (u8)r.below(127);
    for (int i = 0; i < K; i++) for (int j = 0; j < R; j++) { u8 &e = g.at(i, K + j); u8 rnd = (u8)r.below(127);
        switch (kind) {
        case 0: e = rnd; break;
        case 1: e = 0; break;
        case 2: e = 126; break;
        case 3: e = (i == j); break;
        case 4: e = u[i]; break;                                   /* all columns equal */
        case 5: e = (u8)(u[i]*v[j] % 127); break;                  /* rank one, zero columns possible */
        case 6: e = i < param ? u[i] : rnd; break;                 /* common prefix of length param */
        case 7: e = i < param ? 0 : rnd; break;                    /* leading entries at row param */
        case 8: e = (u8)r.below(2); break;
        case 9: e = (i + param) % K == j % K ? (u8)(1 + j % 126) : 0; break;
        case 10: e = i >= j ? rnd : 0; break;                      /* triangular */
        case 11: e = i <= j ? rnd : 0; break;
        case 12: e = (i == param) ? rnd : 0; break;                /* single nonzero row */
        case 13: e = (j == param % R) ? rnd : 0; break;            /* single nonzero column */
        case 14: e = (u8)((i*R + j + param) % 127); break;         /* every value at every place, by param */
        case 15: e = (j/2*2 == param/2*2) ? u[i] : rnd; break;     /* one pair of equal columns */
        case 16: e = i == K-1 ? (u8)(j % 127) : u[i]; break;       /* differ only in the last row */
        case 17: e = i == param ? rnd : u[i]; break;               /* differ only in row param */
        } }
    return g;
}
