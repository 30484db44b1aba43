/* Opening: alterations, malformed inputs, malformed keys, forged signatures. */
#include "scheme.hpp"

/* Under ASan inputs live in exact heap blocks; otherwise in canaried buffers. */
static Opened open_exact(const Bytes &pk_, const Bytes &sm_) {
    Exact pk(pk_.size()), sm(sm_.size()), m(sm_.size(), (int)(C.scn_id & 255));
    memcpy(pk.p, pk_.data(), pk_.size()); if (sm_.size()) memcpy(sm.p, sm_.data(), sm_.size());
    Opened r; r.mlen = 0; r.rc = g_open(m.p, &r.mlen, sm.p, sm_.size(), pk.p); C.transitions++;
    if (r.rc == 0 && r.mlen <= sm_.size()) r.m.assign(m.p, m.p + r.mlen);
    if (r.rc == 0 && r.mlen > sm_.size()) viol("opening reports a message of %llu bytes from %zu", r.mlen, sm_.size());
    return r;
}
static bool g_exact;
/* which disagreements count: 0 all, 'm' accepting too-short or ill-fitting input, 'k' malformed keys, 'a' ill-formed responses */
static char g_judge;
/* leaves a pattern on the stack below the caller */
static void __attribute__((noinline)) scribble(int v) { volatile u8 x[1 << 18]; memset((void *)x, v, sizeof x); __asm__ volatile("" ::: "memory"); }
/* opens with the build under test and the model; verdicts and messages must agree */
static int judge(const Bytes &pk, const Bytes &sm) {
    Bytes mm; int v = open(P, pk.data(), sm.data(), sm.size(), &mm); C.traces++;
    Opened r = g_exact ? open_exact(pk, sm) : do_open(pk, sm, M_PURE);
    if (r.rc != 0 && r.rc != -1 && g_judge == 'm') viol("opening returned %d, neither success nor failure", r.rc);
    if (g_judge) {
        bool mine = g_judge == 'm' ? v == TOO_SHORT || v == BAD_COUNT : g_judge == 'k' ? v == BAD_KEY : v == BAD_ACTION;
        if (mine && r.rc == 0) viol("opening accepts %s", g_judge == 'm' ? "input that is too short or whose seed count does not fit" : g_judge == 'k' ? "a signed message under a malformed public key" : "an ill-formed response");
        if (g_judge == 'k') {
            u64 got[2]; for (int k = 0; k < 2; k++) { scribble(k ? 0xFF : 0); unsigned long d0 = env_digests; Opened q = g_exact ? open_exact(pk, sm) : do_open(pk, sm, 0); got[k] = (u64)(u32)q.rc << 8 | (env_digests - d0); if (env_digests != d0) got[k] ^= (u64)env_last_digest[0] << 40 | (u64)env_last_digest[5] << 48; }
            if (got[0] != got[1]) viol("the result under this public key depends on memory outside the inputs");
        }
        C.extra[mine ? "must_reject" : "other"]++; return v;
    }
    if ((v == ACCEPT) != (r.rc == 0)) viol("opening %s, the specified algorithm %s (verdict %d)", r.rc == 0 ? "accepts" : "rejects", v == ACCEPT ? "accepts" : "rejects", v);
    else if (v == ACCEPT && (r.mlen != mm.size() || r.m != mm)) viol("opening returned a wrong message");
    C.extra[v == ACCEPT ? "accepted" : "rejected"]++; return v;
}
/* adaptive forger: whatever digest the code computes for this altered input is
 * put into the signature and programmed to give the same challenge; input that the
 * algorithm must reject is then still to be rejected */
static void judge_adaptive(const Bytes &pk, Bytes sm, const Bytes &ch, size_t mlen) {
    const size_t off = mlen + P.H() + (size_t)P.W*P.actbytes(); Bytes c = enc_challenge(P, ch);
    for (int round = 0; round < 3; round++) {
        env_reset(); env_script(P.xof(), &sm[off], P.H(), c.data(), c.size());
        unsigned long before = env_digests; int v = judge(pk, sm); C.extra["forgery_rounds"]++;
        if (v == ACCEPT || env_digests == before || !memcmp(&sm[off], env_last_digest, P.H())) break;
        memcpy(&sm[off], env_last_digest, P.H());
    }
}
static Key base_key(u64 label) { env_reset(); KeyScripts k; k.seed = seed_label(label, 1); return do_keygen(k, 0); }
static Bytes some_challenge(u64 i) {
    Bytes ch(P.T, 0); Prng r(i*31 + 7); int n = 0;
    if (i % 4 == 0) for (; n < P.W; n++) ch[n] = (u8)(1 + (i + n) % (P.NK - 1));
    else if (i % 4 == 1) for (; n < P.W; n++) ch[P.T - 1 - n] = (u8)(1 + (i + n) % (P.NK - 1));
    else while (n < P.W) { int p = r.below(P.T); if (!ch[p]) { ch[p] = (u8)(1 + r.below(P.NK - 1)); n++; } }
    return ch;
}
struct Base { Key key, other; Bytes ch, sm; size_t mlen; };
static Base make_base(u64 i, size_t mlen) {
    Base b; b.key = base_key(1000 + i % 3); b.other = base_key(1100 + i % 3); b.ch = some_challenge(i); b.mlen = mlen;
    env_reset(); SignScripts s; s.seed = seed_label(1200 + i, 2); s.challenge = b.ch; s.scripted_challenge = true; Prng r(i); Bytes msg = r.bytes(mlen);
    Signed sg = do_sign(b.key, s, msg, 0); b.sm = sg.sm; return b;
}
/* scripts vanish at env_reset; the honest digest must again expand to its challenge */
static void rescript(const Base &b) {
    env_reset(); Bytes c = enc_challenge(P, b.ch); env_script(P.xof(), &b.sm[b.mlen + P.H() + (size_t)P.W*P.actbytes()], P.H(), c.data(), c.size());
}
struct Layout { size_t salt, acts, dig, seeds, cnt; };
static Layout layout(const Base &b) { Layout l; l.salt = b.mlen; l.acts = l.salt + P.H(); l.dig = l.acts + (size_t)P.W*P.actbytes(); l.seeds = l.dig + P.H(); l.cnt = b.sm.size() - 1; return l; }

/* every single-bit change, byte substitutions, truncations, extensions, exchanges, wrong keys */
static void e_tamper(int nbase, int step, const std::vector<int> &vals) {
    for (int bi = 0; bi < nbase; bi++) {
        Base b = make_base(bi, bi == 0 ? 0 : bi*9); rescript(b); Layout L = layout(b);
        if (scn("base %d unaltered {%s}", bi, show(b.ch).c_str())) { if (judge(b.key.pk, b.sm) != ACCEPT) viol("the specified algorithm rejects what signing produced"); }
        for (size_t i = 0; i < b.sm.size(); i++) {
            bool dig = i >= L.dig && i < L.seeds;
            if (step > 1 && i % step && !(dig && i % 4 == 0) && i + 2 < b.sm.size()) continue;
            for (int bit = 0; bit < 8; bit++) {
                if (step > 1 && (int)((i/step) % 8) != bit) continue;
                if (!scn("base %d flip bit %d of byte %zu of %zu", bi, bit, i, b.sm.size())) continue;
                rescript(b); Bytes sm = b.sm; sm[i] ^= 1 << bit; judge(b.key.pk, sm);
                if (dig) {        /* the altered digest expands to the same challenge: only the comparison can notice */
                    Bytes c = enc_challenge(P, b.ch); env_script(P.xof(), &sm[L.dig], P.H(), c.data(), c.size());
                    if (judge(b.key.pk, sm) == ACCEPT) viol("harness: altered digest accepted by the model");
                }
            }
            for (int v : vals) { if (!scn("base %d byte %zu set to %d", bi, i, v)) continue; rescript(b); Bytes sm = b.sm; sm[i] = (u8)v; judge(b.key.pk, sm); }
        }
        if (step > 1 && bi) continue;
        for (size_t n = 0; n <= b.sm.size(); n += step) {
            if (scn("base %d cut to the first %zu bytes", bi, n)) { rescript(b); judge(b.key.pk, Bytes(b.sm.begin(), b.sm.begin() + n)); }
            if (scn("base %d cut to the last %zu bytes", bi, n)) { rescript(b); judge(b.key.pk, Bytes(b.sm.end() - n, b.sm.end())); }
            if (n < b.sm.size() && scn("base %d byte %zu removed", bi, n)) { rescript(b); Bytes sm = b.sm; sm.erase(sm.begin() + n); judge(b.key.pk, sm); }
            if (scn("base %d byte inserted at %zu", bi, n)) { rescript(b); Bytes sm = b.sm; sm.insert(sm.begin() + n, (u8)n); judge(b.key.pk, sm); }
        }
        /* whole seeds or responses removed or repeated, count adjusted to fit or not */
        int cnt = b.sm.back();
        for (int k = 0; k <= cnt; k++) for (int fix = -1; fix <= 1; fix++) {
            if (k < cnt && scn("base %d seed %d removed, count %+d", bi, k, fix)) { rescript(b); Bytes sm = b.sm; sm.erase(sm.begin() + L.seeds + k*P.SEED, sm.begin() + L.seeds + (k+1)*P.SEED); sm.back() = (u8)(cnt - (fix ? 1 : 0) + (fix > 0)); judge(b.key.pk, sm); }
            if (scn("base %d seed inserted at %d, count %+d", bi, k, fix)) { rescript(b); Bytes sm = b.sm, z(P.SEED, (u8)k); sm.insert(sm.begin() + L.seeds + k*P.SEED, z.begin(), z.end()); sm.back() = (u8)(cnt + (fix ? 1 : 0) - (fix < 0 ? 2 : 0)); judge(b.key.pk, sm); }
        }
        for (int c = 0; c < 256; c++) if (scn("base %d count byte %d", bi, c)) { rescript(b); Bytes sm = b.sm; sm.back() = (u8)c; judge(b.key.pk, sm); }
        for (int c = 0; c < 256; c += step) if (c <= P.MAXPUB && scn("base %d, room for %d seeds", bi, c)) { rescript(b); Bytes sm(b.sm.begin(), b.sm.begin() + L.seeds); for (int k = 0; k < c; k++) { const u8 *s = &b.sm[L.seeds + (cnt ? k % cnt : 0)*P.SEED]; sm.insert(sm.end(), s, s + P.SEED); } sm.push_back((u8)c); judge(b.key.pk, sm); }
        auto field = [&](size_t o, size_t n, const char *w) { for (int v : {0, 255}) if (scn("base %d %s overwritten with %d", bi, w, v)) { rescript(b); Bytes sm = b.sm; memset(&sm[o], v, n); judge(b.key.pk, sm); } };
        field(L.salt, P.H(), "salt"); field(L.dig, P.H(), "digest"); field(L.acts, L.dig - L.acts, "responses"); if (cnt) field(L.seeds, cnt*P.SEED, "seeds");
        auto xchg = [&](size_t x, size_t y, size_t n, const char *w) { if (x == y) return; if (scn("base %d exchange of %s at %zu and %zu", bi, w, x, y)) { rescript(b); Bytes sm = b.sm; std::swap_ranges(sm.begin() + x, sm.begin() + x + n, sm.begin() + y); judge(b.key.pk, sm); } };
        for (int x = 0; x < P.W; x++) for (int y = x + 1; y < P.W && y < x + 8; y++) xchg(L.acts + x*P.actbytes(), L.acts + y*P.actbytes(), P.actbytes(), "responses");
        for (int x = 0; x < cnt; x++) for (int y = x + 1; y < cnt && y < x + 8; y++) xchg(L.seeds + x*P.SEED, L.seeds + y*P.SEED, P.SEED, "seeds");
        xchg(L.salt, L.dig, P.H(), "salt and digest");
        if (scn("base %d under another key", bi)) { rescript(b); judge(b.other.pk, b.sm); }
        for (size_t i = 0; i < b.key.pk.size(); i += std::max<size_t>(1, b.key.pk.size()/97)) if (scn("base %d key byte %zu from another key", bi, i)) { rescript(b); Bytes pk = b.key.pk; pk[i] = b.other.pk[i]; judge(pk, b.sm); }
        if (scn("base %d signature doubled", bi)) { rescript(b); Bytes sm = b.sm; sm.insert(sm.end(), b.sm.begin(), b.sm.end()); judge(b.key.pk, sm); }
    }
}
/* long messages: alterations at positions around powers of two */
static void e_longmsg() {
    for (size_t len : {(size_t)300, (size_t)5000, (size_t)70000, (size_t)(1 << 18) + 5}) {
        Base b = make_base(len, len); std::set<size_t> pos = {0, len - 1};
        for (size_t p = 1; p < len; p *= 2) for (size_t d : {p - 1, p, p + 1}) if (d < len) pos.insert(d);
        for (size_t p : {(size_t)len - 2, (size_t)len - 8, (size_t)len - 32, (size_t)len - 72, (size_t)len - 136}) pos.insert(p);
        for (size_t p : pos) for (int bit : {0, 7}) if (scn("message of %zu bytes, bit %d of byte %zu flipped", len, bit, p)) { rescript(b); Bytes sm = b.sm; sm[p] ^= 1 << bit; judge(b.key.pk, sm); }
        if (scn("message of %zu bytes, first byte dropped", len)) { rescript(b); judge(b.key.pk, Bytes(b.sm.begin() + 1, b.sm.end())); }
        if (scn("message of %zu bytes, byte prepended", len)) { rescript(b); Bytes sm = b.sm; sm.insert(sm.begin(), 0); judge(b.key.pk, sm); }
    }
}
/* signatures made without a secret key by programming the oracle: arbitrary valid
 * responses, seeds and salts, every challenge; the algorithm accepts them */
static Action some_action(u64 i) {
    Action a; a.src.resize(P.K); a.coef.resize(P.K); Prng r(i); std::vector<u16> p(P.N); std::iota(p.begin(), p.end(), 0);
    switch (i % 5) { case 0: break; case 1: std::reverse(p.begin(), p.end()); break; case 2: std::rotate(p.begin(), p.begin() + (i/5) % P.N, p.end()); break; default: for (int k = P.N - 1; k > 0; k--) std::swap(p[k], p[r.below(k + 1)]); }
    for (int k = 0; k < P.K; k++) { a.src[k] = p[k]; a.coef[k] = (u8)(i % 3 == 0 ? 1 + (k + i) % 126 : i % 3 == 1 ? 126 : 1 + r.below(126)); }
    return a;
}
static bool bare_digest(const Bytes &pk, const Bytes &sm, const Bytes &ch, int cnt, size_t mlen, Bytes &dig);
static Bytes forged(const Bytes &pk, const Bytes &ch, const std::vector<Action> &acts, u64 i, size_t mlen, int keycheck = 1) {
    Prng r(i + 5); Bytes hid = hidden_of(ch); int cnt = (int)path_nodes(P, hid).size();
    Bytes sm = r.bytes(mlen + P.H()); for (auto &a : acts) { Bytes e = enc_action(P, a); sm.insert(sm.end(), e.begin(), e.end()); }
    size_t off = sm.size(); Bytes d0 = r.bytes(P.H()); sm.insert(sm.end(), d0.begin(), d0.end());
    Bytes seeds = r.bytes((size_t)cnt*P.SEED); sm.insert(sm.end(), seeds.begin(), seeds.end()); sm.push_back((u8)cnt);
    Bytes dig; if (bare_digest(pk, sm, ch, cnt, mlen, dig)) memcpy(&sm[off], dig.data(), P.H());
    Bytes c = enc_challenge(P, ch, i & 1); env_script(P.xof(), &sm[off], P.H(), c.data(), c.size());
    (void)keycheck; return sm;
}
/* digest the specified verifier computes for this challenge, if it gets that far */
static bool bare_digest(const Bytes &pk, const Bytes &sm_, const Bytes &ch, int, size_t mlen, Bytes &dig) {
    /* model::open with the challenge programmed; its final hash is recovered by a second pass */
    Bytes sm = sm_; const size_t off = mlen + P.H() + (size_t)P.W*P.actbytes(); Bytes c = enc_challenge(P, ch);
    env_script(P.xof(), &sm[off], P.H(), c.data(), c.size());
    return model_digest(P, pk.data(), sm.data(), sm.size(), dig);
}
static void each_challenge(const std::function<void(const Bytes &)> &f) {
    std::vector<int> pos(P.W); std::iota(pos.begin(), pos.end(), 0);
    for (;;) {
        std::vector<int> val(P.W, 1);
        for (;;) { Bytes ch(P.T, 0); for (int i = 0; i < P.W; i++) ch[pos[i]] = (u8)val[i]; f(ch); int k = P.W - 1; while (k >= 0 && ++val[k] >= P.NK) val[k--] = 1; if (k < 0) break; }
        int k = P.W - 1; while (k >= 0 && pos[k] == P.T - P.W + k) k--; if (k < 0) break;
        pos[k]++; for (int j = k + 1; j < P.W; j++) pos[j] = pos[j-1] + 1;
    }
}
static void e_forge(int reps) {
    Key key = base_key(2000); u64 n = 0;
    each_challenge([&](const Bytes &ch) { for (int rep = 0; rep < reps; rep++) {
        u64 i = n++; if (!scn("forged signature %llu for challenge {%s}", (unsigned long long)i, show(ch).c_str())) continue;
        env_reset(); std::vector<Action> acts; for (int w = 0; w < P.W; w++) acts.push_back(some_action(i*13 + w));
        Bytes sm = forged(key.pk, ch, acts, i, i % 20); if (judge(key.pk, sm) != ACCEPT) viol("harness: programmed signature rejected by the model");
        Bytes bad = sm; size_t off = i % 20 + P.H() + (size_t)P.W*P.actbytes(); size_t bit = i*7 % (8*P.H()); bad[off + bit/8] ^= 1 << bit % 8;
        Bytes c = enc_challenge(P, ch); env_script(P.xof(), &bad[off], P.H(), c.data(), c.size()); judge(key.pk, bad);
    } });
}
/* ill-formed responses inside a signature, with an adaptive forger */
static void e_badaction(int step) {
    Key key = base_key(2100); u64 n = 0; const int nv = 1 << P.permbits;
    auto attempt = [&](int w, const Action &bad, const char *what, int a, int b) {
        u64 i = n++; if (!scn("response %d of %d: %s (%d, %d)", w, P.W, what, a, b)) return;
        env_reset(); Bytes ch = some_challenge(i); std::vector<Action> acts; for (int x = 0; x < P.W; x++) acts.push_back(x == w ? bad : some_action(i + x));
        size_t mlen = i % 11; Bytes sm = forged(key.pk, ch, acts, i, mlen); judge_adaptive(key.pk, sm, ch, mlen);
    };
    for (int w = 0; w < P.W; w++) {
        for (int k = 0; k < P.K; k++) for (int v : {0, 127}) for (int s = 0; s < 2; s++) { Action a = some_action(3 + 5*s + k*0); a.coef[k] = (u8)v; attempt(w, a, "coefficient out of range", k, v); }
        for (int k = 0; k < P.K; k++) for (int v = P.N; v < nv; v += (v < P.N + 3 || v > nv - 4) ? 1 : step) { Action a = some_action(4); a.src[k] = (u16)v; attempt(w, a, "column index out of range", k, v); }
        for (int x = 0; x < P.K; x++) for (int y = 0; y < P.K; y++) if (x != y && (step == 1 || P.K < 20 || x < 2 || x > P.K - 3 || abs(x - y) < 2 || (x + y) % step == 0)) for (int s = 0; s < 2; s++) { Action a = some_action(s ? 0 : 4); a.src[x] = a.src[y]; if (s) a.coef[x] = a.coef[y]; attempt(w, a, "repeated column index", x, y); }
        { Action a = some_action(0); std::fill(a.src.begin(), a.src.end(), 5); attempt(w, a, "constant column index", 5, 5); }
        { Action a = some_action(0); std::fill(a.coef.begin(), a.coef.end(), 0); attempt(w, a, "all coefficients zero", 0, 0); }
    }
}
/* arbitrary bytes of every length */
static void e_bytes(int deep) {
    Key key = base_key(2200); Base b = make_base(3, 4); const size_t full = GP.sigmax + 8; Layout L = layout(b);
    const int fills[] = {0, 255, 1, 127, 128, -1, -2};
    for (size_t n = 0; n <= full + 24; n++) for (int f : fills) {
        if (!scn("%zu bytes, filling %d", n, f)) continue;
        env_reset(); Prng r(n*7 + f); Bytes sm(n); for (auto &x : sm) x = f >= 0 ? (u8)f : (u8)r.next();
        if (f == -2 && n) sm.back() = (u8)(n % (P.MAXPUB + 3));
        judge(key.pk, sm);
    }
    for (int c = 0; c < 256; c++) for (int d = -2; d <= 2; d++) {
        long n = (long)P.sigbytes(c) + d; if (n < 0) continue;
        for (int f : {0, -1}) { if (!scn("%ld bytes for count byte %d, filling %d", n, c, f)) continue; env_reset(); Prng r(n); Bytes sm(n); for (auto &x : sm) x = f >= 0 ? 0 : (u8)r.next(); sm.back() = (u8)c; judge(key.pk, sm); }
    }
    /* digests with every challenge shape, fitting and unfitting counts */
    for (int i = 0; i < (deep ? 400 : 60); i++) for (int dc = -2; dc <= 2; dc++) for (int ex = 0; ex < 2; ex++) {
        if (!scn("programmed challenge %d, count off by %d, %s", i, dc, ex ? "exact length" : "one byte longer")) continue;
        env_reset(); Bytes ch = some_challenge(i); int need = (int)path_nodes(P, hidden_of(ch)).size(), c = need + dc; if (c < 0) continue;
        Prng r(i); Bytes sm = r.bytes(P.sigbytes(c) + (ex ? 0 : 1)); sm.back() = (u8)c; size_t ml = ex ? 0 : 1;
        size_t off = ml + P.H() + (size_t)P.W*P.actbytes(); Bytes e = enc_challenge(P, ch, i & 1); env_script(P.xof(), &sm[off], P.H(), e.data(), e.size());
        for (int w = 0; w < P.W; w++) { Action a = some_action(i + w); if (i % 3 == 0 && w == i % P.W) a.src[i % P.K] = (u16)((1 << P.permbits) - 1); Bytes x = enc_action(P, a); memcpy(&sm[ml + P.H() + w*P.actbytes()], x.data(), x.size()); }
        judge(key.pk, sm);
    }
    /* honest signature cut short at either end, with every count byte */
    for (size_t n = 0; n <= b.sm.size(); n++) { if (scn("honest signature cut to %zu leading bytes", n)) { rescript(b); judge(b.key.pk, Bytes(b.sm.begin(), b.sm.begin() + n)); } if (scn("honest signature cut to %zu trailing bytes", n)) { rescript(b); judge(b.key.pk, Bytes(b.sm.end() - n, b.sm.end())); } }
    for (int c = 0; c < 256; c++) if (scn("honest signature with count byte %d", c)) { rescript(b); Bytes sm = b.sm; sm.back() = (u8)c; judge(b.key.pk, sm); }
    for (int v = 0; v < 256; v++) for (int w = 0; w < P.W; w++) if (scn("honest signature, response %d filled with %d", w, v)) { rescript(b); Bytes sm = b.sm; memset(&sm[L.acts + w*P.actbytes()], v, P.actbytes()); judge(b.key.pk, sm); }
}
/* lengths and counts at unmodified parameters (cheap: rejected before any matrix work) */
static void e_sizes(int step) {
    Key key = base_key(2300); const size_t full = GP.sigmax;
    for (size_t n = 0; n <= full + 40; n += (n < 40 || n + 40 > full) ? 1 : step) for (int f : {0, 255, -1}) {
        if (!scn("%zu bytes, filling %d", n, f)) continue;
        env_reset(); Prng r(n); Bytes sm(n); for (auto &x : sm) x = f >= 0 ? (u8)f : (u8)r.next(); if (f < 0 && n) sm.back() = (u8)(n % (P.MAXPUB + 2));
        judge(key.pk, sm);
    }
    for (int c = 0; c < 256; c++) for (int d = -1; d <= 1; d++) { if (!scn("count byte %d, length %+d", c, d)) continue; env_reset(); Prng r(c); Bytes sm = r.bytes(P.sigbytes(c) + d); sm.back() = (u8)c; judge(key.pk, sm); }
}
/* malformed public keys */
static void e_keys(int step, int deep) {
    Base b = make_base(5, 6); const size_t rb = P.rrefbytes(), hdr = (P.N + 7)/8; Layout L = layout(b); (void)L; u64 n = 0;
    auto attempt = [&](const Bytes &pk, const char *what, long x, long y) {
        if (!scn("%s (%ld, %ld)", what, x, y)) return;
        rescript(b); judge(pk, b.sm); judge_adaptive(pk, b.sm, b.ch, b.mlen); n++;
        /* a challenge that uses every key */
        Bytes ch = some_challenge(n + 2); std::vector<Action> acts; for (int w = 0; w < P.W; w++) acts.push_back(some_action(n + w));
        env_reset(); Bytes sm = forged(pk, ch, acts, n, n % 5); judge_adaptive(pk, sm, ch, n % 5);
    };
    for (size_t i = 0; i < 8*b.key.pk.size(); i++) { size_t in = i/8 < (size_t)P.SEED ? 0 : (i/8 - P.SEED) % rb; if (i/8 >= (size_t)P.SEED && in >= hdr && i % step) continue; Bytes pk = b.key.pk; pk[i/8] ^= 1 << i % 8; attempt(pk, "key bit flipped", i, 0); }
    for (int k = 0; k + 1 < P.NK; k++) {
        u8 *dummy = nullptr; (void)dummy;
        auto mat = [&](Bytes &pk) { return &pk[P.SEED + k*rb]; };
        for (int w = 0; w <= P.N; w += deep ? 1 : (w < 3 || abs(w - P.K) < 3 || w > P.N - 3) ? 1 : 11) for (int kind = 0; kind < 3; kind++) {
            Bytes pk = b.key.pk; u8 *m = mat(pk); memset(m, 0, hdr); for (int j = 0; j < w; j++) { int p = kind == 0 ? j : kind == 1 ? P.N - 1 - j : (int)((long)j*P.N/std::max(w, 1)); m[p/8] |= 1 << p % 8; }
            attempt(pk, "pivot flags of weight", w, kind);
        }
        for (long e = 0; e < (long)P.K*(P.N - P.K); e += step) { Bytes pk = b.key.pk; u8 *m = mat(pk) + hdr; for (int t = 0; t < 7; t++) m[(7*e + t)/8] |= 1 << (7*e + t) % 8; attempt(pk, "matrix entry 127 in key", k, e); }
        for (int v : {0, 1, 85, 127, 128, 255}) { Bytes pk = b.key.pk; memset(mat(pk) + hdr, v, rb - hdr); attempt(pk, "matrix filled", k, v); Bytes p2 = b.key.pk; memset(mat(p2), v, rb); attempt(p2, "matrix and flags filled", k, v); }
        /* out-of-field entries together with a wrong number of flags, one more and one less */
        for (int d : {-1, 1}) { Bytes pk = b.key.pk; u8 *m = mat(pk); for (int p = 0; p < P.N; p++) if (((m[p/8] >> p % 8) & 1) == (d < 0)) { m[p/8] ^= 1 << p % 8; break; } attempt(pk, "one pivot flag", k, d); Bytes p2 = b.key.pk; m = mat(p2); for (int p = P.N - 1; p >= 0; p--) if (((m[p/8] >> p % 8) & 1) == (d < 0)) { m[p/8] ^= 1 << p % 8; break; } attempt(p2, "one pivot flag at the end", k, d); }
        for (int x = 0; x < P.N; x += deep ? 1 : 7) { Bytes pk = b.key.pk; u8 *m = mat(pk); int set = (m[x/8] >> x % 8) & 1; for (int y = (x + 1) % P.N; y != x; y = (y + 1) % P.N) if (((m[y/8] >> y % 8) & 1) != set) { m[x/8] ^= 1 << x % 8; m[y/8] ^= 1 << y % 8; break; } attempt(pk, "pivot flag moved", k, x); }
    }
    for (int v : {0, 255}) attempt(Bytes(b.key.pk.size(), (u8)v), "whole key filled", v, 0);
}

int main(int argc, char **argv) {
    h_init(argc, argv); P = load_params(); std::string cmd = argv[1]; int a = argc > 2 ? atoi(argv[2]) : 1, b2 = argc > 3 ? atoi(argv[3]) : 1;
    g_exact = getenv("H_EXACT") != nullptr; if (const char *j = getenv("H_JUDGE")) g_judge = *j;
    if (cmd == "tamper") { std::vector<int> v; if (argc > 4) { for (int i = 0; i < 256; i++) v.push_back(i); } e_tamper(a, b2, v); }
    else if (cmd == "longmsg") e_longmsg();
    else if (cmd == "forge") e_forge(a);
    else if (cmd == "badaction") e_badaction(a);
    else if (cmd == "bytes") e_bytes(C.tier);
    else if (cmd == "sizes") e_sizes(a);
    else if (cmd == "keys") e_keys(a, C.tier);
    else { fprintf(stderr, "unknown explorer %s\n", argv[1]); return 2; }
    return h_finish();
}
