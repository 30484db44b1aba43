#include "scheme.hpp"

static Key base_key(u64 label, int mon = 0) { KeyScripts k; k.seed = seed_label(label, 1); return do_keygen(k, mon); }
static const size_t SMALL_LENS[] = {0, 1, 17, 32, 33};

/* monitors with opening */
static void run_case(const Key &key, const SignScripts &s, const Bytes &msg, int mon) {
    Signed sg = do_sign(key, s, msg, mon);
    if (mon & M_RT) expect_accept(key, sg, mon);
}

/* E1: every challenge vector of the build's T, W (small builds); both placement orders */
static void each_challenge(const std::function<void(const Bytes &)> &f) {
    std::vector<int> pos(P.W); std::iota(pos.begin(), pos.end(), 0);
    for (;;) {
        std::vector<int> val(P.W, 1);
        for (;;) {
            Bytes ch(P.T, 0); for (int i = 0; i < P.W; i++) ch[pos[i]] = (u8)val[i]; f(ch);
            int k = P.W - 1; while (k >= 0 && ++val[k] >= P.NK) val[k--] = 1;
            if (k < 0) break;
        }
        int k = P.W - 1; while (k >= 0 && pos[k] == P.T - P.W + k) k--;
        if (k < 0) break;
        pos[k]++; for (int j = k + 1; j < P.W; j++) pos[j] = pos[j-1] + 1;
    }
}
static void e_challenges(int mon) {
    env_reset(); Key keys[2] = {base_key(11, mon), base_key(12, mon)}; u64 n = 0;
    each_challenge([&](const Bytes &ch) {
        for (int v = 0; v < 2; v++) {
            u64 i = n++;
            if (!scn("challenge {%s} order %d key %d", show(ch).c_str(), v, (int)(i & 1))) continue;
            env_reset(); SignScripts s; s.seed = seed_label(100 + i % 7, 2); s.challenge = ch; s.scripted_challenge = true; s.reverse = v;
            Prng r(i); Bytes msg = r.bytes(SMALL_LENS[i % 5]); run_case(keys[i & 1], s, msg, mon);
        }
    });
    C.extra["challenge_vectors"] = n/2;
}
/* E2: every message length in [0, max), and lengths around powers of two */
static void e_lengths(int mon, size_t max) {
    env_reset(); Key key = base_key(21, mon); std::vector<size_t> lens;
    for (size_t l = 0; l < max; l++) lens.push_back(l);
    for (int b = 10; b <= (C.tier ? 24 : 20); b++) for (int d = -1; d <= 1; d++) lens.push_back(((size_t)1 << b) + d);
    for (size_t l : lens) {
        if (!scn("message length %zu", l)) continue;
        env_reset(); SignScripts s; s.seed = seed_label(200 + l, 2); Prng r(l); Bytes msg = r.bytes(l); run_case(key, s, msg, mon);
    }
}
/* messages beyond 32-bit lengths; the hash environment absorbs a digest of them */
static void e_huge(int mon) {
    env_reset(); Key key = base_key(22, 0); const bool exact = mon & M_SIGN;
    const u64 sizes[] = {((u64)1 << 31) + 3, ((u64)1 << 32) + 7};
    for (u64 l : sizes) {
        if (exact && l < (u64)1 << 32) continue;
        if (!scn("message length %llu", (unsigned long long)l)) continue;
        env_reset(); env_big_absorb = exact ? 0 : 1 << 26; rng_start(seed_label(230, 2));
        u8 *m = (u8 *)mmap(nullptr, l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        u8 *sm = (u8 *)mmap(nullptr, l + GP.sigmax + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED || sm == MAP_FAILED) { fprintf(stderr, "harness: no memory\n"); exit(9); }
        memset(m, 1, 4096); memset(m + l - 4096, 2, 4096); m[l/2] = 77;
        unsigned long long smlen = 0, mlen = 0; int rc = g_sign(sm, &smlen, m, l, key.sk.data()); C.transitions++;
        if (rc || smlen <= l || smlen > l + GP.sigmax) viol("signing a message of %llu bytes: rc %d length %llu", (unsigned long long)l, rc, smlen);
        else if (exact) {      /* every byte of the message enters the hash */
            Xof r(P.xof(), seed_label(230, 2).data(), seed_label(230, 2).size());
            Bytes ref = sign(P, r, key.sk.data(), m, l, nullptr, false); C.traces++;
            if (memcmp(sm, m, l)) viol("signing a message of %llu bytes does not copy it", (unsigned long long)l);
            else if (ref.size() != smlen - l || memcmp(sm + l, ref.data(), ref.size())) viol("signature of a message of %llu bytes differs from the specified one", (unsigned long long)l);
        } else { m[l/2] = 0; rc = g_open(m, &mlen, sm, smlen, key.pk.data()); C.transitions++;
            if (rc || mlen != l || m[0] != 1 || m[l-1] != 2 || m[l/2] != 77) viol("opening a message of %llu bytes: rc %d, length %llu", (unsigned long long)l, rc, mlen);
            sm[l-1] ^= 1; mlen = 0; rc = g_open(m, &mlen, sm, smlen, key.pk.data()); if (rc == 0) viol("altered message of %llu bytes accepted", (unsigned long long)l); }
        munmap(m, l); munmap(sm, l + GP.sigmax + 4096); env_big_absorb = 0;
    }
}
/* E3: structured codes, secrets and ephemerals at full size */
struct Fam { int code, cparam, eph, eparam, eck, sec, sparam, sck; };
static std::vector<Fam> families(int mon) {
    std::vector<Fam> f; const int K = P.K, N = P.N; const bool deep = C.tier; (void)mon;
    for (int c = 0; c <= 17; c++) for (int e = 0; e <= 5; e++) f.push_back({c, K/2, e, e == 2 ? N - K : 1, (c + e) % 5, (c + 2*e) % 6, N/3, (c*2 + e) % 5});
    int st = deep ? 1 : K > 250 ? 5 : K > 150 ? 3 : 2;
    for (int l = 0; l <= K; l += (l < 20 || l > K - 20 || (l > 250 && l < 260) || (l > 124 && l < 130) || deep) ? 1 : st) {
        f.push_back({6, l, 3, 0, 3, 3, 0, 3}); f.push_back({7, l, 0, 0, 2, 3, 0, 3}); f.push_back({17, l % K, 3, 0, 2, 2, l, 3});
    }
    for (int r = 0; r < N; r += deep ? 1 : K > 150 ? 29 : 13) { f.push_back({0, 0, 2, r, 2, 4, r, 4}); f.push_back({10, 0, 2, r, 3, 6, r, 2}); f.push_back({1, 0, 2, r, 2, 2, N - r, 3}); }
    for (int j = 0; j < N - K; j += deep ? 1 : 17) { f.push_back({13, j, 3, 0, 3, 5, 0, 2}); f.push_back({15, j, 3, 0, 2, 1, 0, 3}); f.push_back({9, j % K, 2, N - K + j % 3, 3, 3, 0, 3}); f.push_back({12, j % K, 1, 0, 3, 0, 0, 3}); }
    for (int v = 0; v < 127; v += deep ? 1 : 21) f.push_back({14, v, 3, 0, 3, 3, 0, 3});
    return f;
}
static void family_scripts(const Fam &a, u64 i, KeyScripts &k, SignScripts &s, Mat &code) {
    k.seed = seed_label(300 + i % 5, 1); code = code_struct(a.code, a.cparam, i % 11); k.code = &code;
    for (int j = 0; j + 1 < P.NK; j++) k.secrets.push_back(mono_of(a.sec, a.sparam + j, a.sck, i + j));
    s.seed = seed_label(400 + i % 5, 2);
    for (int t = 0; t < P.T; t++) s.ephem.push_back(mono_of((a.eph + t) % 7, a.eparam + t, (a.eck + t) % 5, i + 3*t));
    s.challenge.assign(P.T, 0); for (int w = 0; w < P.W; w++) s.challenge[(i + w) % P.T] = (u8)(1 + (i/2 + w) % (P.NK - 1));
    s.scripted_challenge = true;
}
static void e_families(int mon, int stride) {
    u64 i = 0;
    for (auto &a : families(mon)) {
        u64 id = i++;
        if (id % stride) continue;
        if (!scn("code %d(%d) ephemeral %d(%d)/%d secret %d(%d)/%d", a.code, a.cparam, a.eph, a.eparam, a.eck, a.sec, a.sparam, a.sck)) continue;
        env_reset(); KeyScripts k; SignScripts s; Mat code; family_scripts(a, id, k, s, code);
        program_key(k); Key key = do_keygen(k, mon & M_RT && !(mon & M_KEY) ? mon : mon); program_sign(s);
        Prng r(id); Bytes msg = r.bytes(id % 40);
        if (mon & (M_SIGN | M_RT | M_NODES | M_SIZE | M_PURE)) run_case(key, s, msg, mon);
    }
}
/* E4: structured challenges at the full number of rounds */
static std::vector<Bytes> big_challenges(bool deep) {
    std::vector<Bytes> r; const int T = P.T, W = P.W; u64 n = 0;
    auto add = [&](const Bytes &hid) { Bytes ch(T, 0); int k = 0; for (int i = 0; i < T; i++) if (hid[i]) ch[i] = (u8)(1 + (n + (n % 3 ? k++ : 0)) % (P.NK - 1)); r.push_back(ch); n++; };
    PathDP dp(P); Counts all = dp.all(W); int lo = -1, hi = -1;
    for (int c = 0; c < 1024; c++) if (all[c]) { if (lo < 0) lo = c; hi = c; }
    for (int c = lo; c <= hi; c++) if (all[c] && (deep || c == lo || c == lo + 1 || c >= hi - 2 || c == (lo + hi)/2)) for (int f = 0; f < (c == hi ? 4 : 1); f++) add(dp.hidden(W, c, 12345 + 77*f));
    for (int s = 0; ; s += deep ? 1 : W) { if (s > T - W) s = T - W; Bytes h(T, 0); for (int i = 0; i < W; i++) h[s + i] = 1; add(h); if (s == T - W) break; }
    for (int d = 2; (W-1)*d < T; d += deep ? 1 : 1 + d/2) for (int s : {0, T - 1 - (W-1)*d, d/2}) { if (s + (W-1)*d >= T) continue; Bytes h(T, 0); for (int i = 0; i < W; i++) h[s + i*d] = 1; add(h); }
    { Bytes h(T, 0); for (int i = 0; i < W; i++) h[(long)i*(T-1)/(W-1)] = 1; add(h); }
    return r;
}
static void e_bigT(int mon) {
    env_reset(); Key key = base_key(41, mon & M_KEY); u64 n = 0;
    for (auto &ch : big_challenges(C.tier)) {
        u64 i = n++; int w = 0; for (u8 v : ch) w += v != 0; if (w != P.W) { fprintf(stderr, "harness: weight\n"); exit(9); }
        if (!scn("full-length challenge %llu {%s}", (unsigned long long)i, show(ch).c_str())) continue;
        env_reset(); SignScripts s; s.seed = seed_label(500 + i, 2); s.challenge = ch; s.scripted_challenge = true; s.reverse = i & 1;
        Prng r(i); Bytes msg = r.bytes(i % 50); run_case(key, s, msg, mon);
    }
}
/* E4b: one challenge for every attainable number of published seeds */
static void e_counts(int mon, int stride) {
    env_reset(); Key key = base_key(42, 0); PathDP dp(P); Counts all = dp.all(P.W); u64 n = 0; int hi = 0, lo = -1;
    for (int c = 0; c < 1024; c++) if (all[c]) { hi = c; if (lo < 0) lo = c; n++; }
    C.extra["attainable_counts"] = n; C.extra["largest_count"] = hi; C.extra["smallest_count"] = lo;
    if (scn("advertised maximum of published seeds")) {
        if (hi > GP.maxpub) viol("some challenge publishes %d seeds, advertised maximum is %d", hi, GP.maxpub);
        if (GP.maxbytes < hi*P.SEED) viol("seed area of %d bytes, worst case %d", GP.maxbytes, hi*P.SEED);
        if (GP.sigmax < P.sigbytes(hi)) viol("advertised signature size %d, worst case %d", GP.sigmax, P.sigbytes(hi));
    }
    if (hi > GP.maxpub) return;                 /* signing would overflow the buffers */
    const int reps = C.tier ? 3 : 1;
    for (int c = 0; c <= hi; c++) if (all[c] && (c <= lo + 1 || c >= hi - 2 || (c - lo) % stride == 0)) for (int f = 0; f < (c == hi ? 4 : reps); f++) {
        if (!scn("challenge publishing %d of at most %d seeds, variant %d", c, GP.maxpub, f)) continue;
        Bytes hid = dp.hidden(P.W, c, 991*f + c), ch(P.T, 0); for (int i = 0; i < P.T; i++) if (hid[i]) ch[i] = (u8)(1 + i % (P.NK - 1));
        env_reset(); SignScripts s; s.seed = seed_label(600 + c, 2); s.challenge = ch; s.scripted_challenge = true;
        Prng r(c); Bytes msg = r.bytes(c % 3*20); Signed sg = do_sign(key, s, msg, mon);
        if ((int)sg.sm.size() != (int)msg.size() + P.sigbytes(c)) viol("signature has %zu bytes, a challenge publishing %d seeds needs %d", sg.sm.size() - msg.size(), c, P.sigbytes(c));
        if (mon & M_RT) expect_accept(key, sg, mon);
    }
}
/* E5: unmodified parameters with the repository's own hash */
static void e_real(int mon, int reps) {
    for (int i = 0; i < reps; i++) {
        if (!scn("unmodified parameters, own hash, run %d", i)) continue;
        env_reset(); env_mode = 0; KeyScripts k; k.seed = seed_label(700 + i, 1); Key key = do_keygen(k, mon);
        SignScripts s; s.seed = seed_label(710 + i, 2); Prng r(i); Bytes msg = r.bytes(33*(i + 1)); run_case(key, s, msg, mon); env_mode = 1;
    }
}
/* E6: key generation over structured streams */
static void e_keys(int mon) {
    u64 n = 0;
    for (int i = 0; i < (C.tier ? 64 : 8); i++) { if (!scn("random key %d", i)) { n++; continue; } env_reset(); if (i & 1 && !getenv("H_CROSS")) env_mode = 0; KeyScripts k; k.seed = seed_label(800 + i, 1); do_keygen(k, mon); env_mode = 1; n++; }
    for (auto &a : families(mon)) {
        u64 id = n++;
        if (!scn("key: code %d(%d) secret %d(%d)/%d", a.code, a.cparam, a.eph, a.eparam, a.eck)) continue;
        env_reset(); KeyScripts k; SignScripts s; Mat code; Fam b = a; b.sec = a.eph; b.sparam = a.eparam; b.sck = a.eck; family_scripts(b, id, k, s, code); program_key(k); do_keygen(k, mon);
    }
    /* secrets that bring every column of the code to the front: pivot search at every column distance */
    for (int r = 0; r < P.N; r += C.tier ? 1 : P.N > 300 ? 5 : 3) for (int c : {1, 3, 10, 13}) {
        u64 id = n++;
        if (!scn("key: code %d secret rotation %d", c, r)) continue;
        env_reset(); KeyScripts k; k.seed = seed_label(850, 1); Mat code = code_struct(c, r % P.K, id); k.code = &code; for (int j = 0; j + 1 < P.NK; j++) k.secrets.push_back(mono_of(2, r + j, 3, id)); program_key(k); do_keygen(k, mon);
    }
    /* rejection patterns: rejected fields before, inside and after the accepted ones */
    for (int pat = 0; pat < 40; pat++) {
        u64 id = n++;
        if (!scn("key: rejection pattern %d in code and monomial streams", pat)) continue;
        env_reset(); KeyScripts k; k.seed = seed_label(860, 1); Xof x(P.xof(), k.seed.data(), k.seed.size()); Bytes sk(3*P.SEED); x.read(sk.data(), sk.size());
        Prng r(id); Bytes code, mono, f;
        auto rejected = [&](size_t i) { return pat < 9 ? i % 9 == (size_t)pat : pat < 18 ? i/9 % 3 == (size_t)pat % 3 : pat < 30 ? i % 64 < (size_t)(pat - 17)*5 : r.below(4) == 0; };
        for (int i = 0; i < 2*P.K*(P.N - P.K) && i < 40000; i++) f.push_back(rejected(i) ? 127 : (u8)r.below(127));
        enc_fields(code, f); f.clear();
        for (int got = 0, i = 0; got < P.N; i++) { if (rejected(i)) f.push_back((u8)(126 + r.below(2))); else { f.push_back((u8)r.below(126)); got++; } }
        enc_fields(mono, f); for (int i = 0; i < P.N; i++) put32(mono, (u32)r.next());
        env_script(P.xof(), sk.data() + 2*P.SEED, P.SEED, code.data(), code.size());
        auto ss = secret_seeds(P, sk.data()); for (auto &b : ss) env_script(P.xof(), b.data(), b.size(), mono.data(), mono.size());
        do_keygen(k, mon);
    }
}

int main(int argc, char **argv) {
    h_init(argc, argv); P = load_params(); std::string cmd = argv[1]; int mon = argc > 2 ? atoi(argv[2]) : M_RT;
    if (cmd == "challenges") e_challenges(mon);
    else if (cmd == "lengths") e_lengths(mon, C.tier ? 600 : 300);
    else if (cmd == "huge") e_huge(mon);
    else if (cmd == "families") e_families(mon, argc > 3 ? atoi(argv[3]) : 1);
    else if (cmd == "bigT") e_bigT(mon);
    else if (cmd == "counts") e_counts(mon, argc > 3 ? atoi(argv[3]) : 1);
    else if (cmd == "real") e_real(mon, argc > 3 ? atoi(argv[3]) : 1);
    else if (cmd == "keys") e_keys(mon);
    else { fprintf(stderr, "unknown explorer %s\n", argv[1]); return 2; }
    return h_finish();
}
