/* Histories of calls: every sequence of operations up to a depth, each result
 * compared with the model's (which has no history), with different contents of
 * the stack, of the output buffers and different placements of the arguments. */
#include "scheme.hpp"

struct Stream { Bytes seed; size_t pos = 0; };
static Bytes at(const Stream &s, size_t n) { Xof r(P.xof(), s.seed.data(), s.seed.size()); Bytes skip(s.pos), out(n); r.read(skip.data(), s.pos); r.read(out.data(), n); return out; }
static Xof xof_at(const Stream &s) { Xof r(P.xof(), s.seed.data(), s.seed.size()); Bytes skip(s.pos); r.read(skip.data(), s.pos); return r; }

/* leaves a pattern where the callee's locals will be */
__attribute__((noinline)) static void scribble(int fill) { volatile u8 a[1 << 20]; memset((void *)a, fill, sizeof a); asm volatile("" ::"r"(a) : "memory"); }

struct Place { unsigned a[4]; int fill, stack; };            /* alignment of each argument, contents of outputs, of the stack */
static Place place(u64 i) { static const int F[] = {0, 255, 0xA5, 1, 0x7f, 0x80}; return {{(unsigned)(i*5 % 32), (unsigned)(i*11 % 32), (unsigned)(i*13 % 32), (unsigned)(i*7 % 32)}, F[i % 6], F[(i/6 + 2*i) % 6]}; }

static Bytes SEEDS[2]; static Key keys[2]; static Bytes msgs[3], valid[2]; static std::vector<std::pair<Bytes, Bytes>> bad;   /* pk, sm */
static std::map<Bytes, Bytes> memo;                                                                          /* request -> model's result */
static Bytes join(std::initializer_list<Bytes> l) { Bytes r; for (auto &b : l) { put32(r, (u32)b.size()); r.insert(r.end(), b.begin(), b.end()); } return r; }
static Bytes pos_of(const Stream &s) { Bytes b = s.seed; put32(b, (u32)s.pos); return b; }

static void m_key(const Stream &s, Bytes &pk, Bytes &sk) {
    Bytes q = join({Bytes(1, 'K'), pos_of(s)}), &v = memo[q];
    if (v.empty()) { Xof r = xof_at(s); Bytes a, b; keygen(P, r, a, b); v = a; v.insert(v.end(), b.begin(), b.end()); C.traces++; }
    pk.assign(v.begin(), v.begin() + P.pkbytes()); sk.assign(v.begin() + P.pkbytes(), v.end());
}
static Bytes m_sign(const Stream &s, const Bytes &sk, const Bytes &m) {
    Bytes q = join({Bytes(1, 'S'), pos_of(s), sk, m}), &v = memo[q];
    if (v.empty()) { Xof r = xof_at(s); v = sign(P, r, sk.data(), m.data(), m.size()); C.traces++; }
    return v;
}
static int m_open(const Bytes &pk, const Bytes &sm, Bytes &m) {
    Bytes q = join({Bytes(1, 'O'), pk, sm}), &v = memo[q];
    if (v.empty()) { Bytes mm; int r = open(P, pk.data(), sm.data(), sm.size(), &mm); v = Bytes(1, (u8)r); if (r == ACCEPT) v.insert(v.end(), mm.begin(), mm.end()); C.traces++; }
    m.assign(v.begin() + 1, v.end()); return v[0];
}

static void check_stream(const Stream &s, const char *what) {
    Bytes want = at(s, 16), got(16), save(g_rng_size());
    g_rng_get(save.data()); g_random(got.data(), 16); g_rng_set(save.data());
    if (got != want) viol("%s left the system random stream at a wrong position", what);
}
static void op_key(Stream &s, const Place &p, Key &out) {
    Bytes pk, sk; m_key(s, pk, sk);
    Buf a(GP.pkbytes, p.a[0], p.fill), b(GP.skbytes, p.a[1], p.fill); scribble(p.stack);
    int rc = g_keypair(a.p, b.p); C.transitions++;
    if (rc) viol("key generation returned %d", rc);
    if (!a.intact() || !b.intact()) viol("key generation wrote outside its outputs");
    if (memcmp(a.p, pk.data(), pk.size()) || memcmp(b.p, sk.data(), sk.size())) viol("key generation at stream position %zu gives a different key pair after this history", s.pos);
    s.pos += 3*P.SEED; check_stream(s, "key generation"); out.pk = pk; out.sk = sk;
}
static Bytes op_sign(Stream &s, const Place &p, const Bytes &sk, const Bytes &m) {
    Bytes want = m_sign(s, sk, m); Buf a(m.size() + GP.sigmax, p.a[0], p.fill), b(m.size(), p.a[1]), c(sk.size(), p.a[2]);
    if (m.size()) memcpy(b.p, m.data(), m.size()); memcpy(c.p, sk.data(), sk.size()); unsigned long long n = 77; scribble(p.stack);
    int rc = g_sign(a.p, &n, b.p, m.size(), c.p); C.transitions++;
    if (rc) viol("signing returned %d", rc);
    if (!a.intact() || !b.intact() || !c.intact()) viol("signing wrote outside its outputs");
    if ((m.size() && memcmp(b.p, m.data(), m.size())) || memcmp(c.p, sk.data(), sk.size())) viol("signing changed its inputs");
    if (n != want.size() || memcmp(a.p, want.data(), want.size())) viol("signing at stream position %zu gives a different signed message after this history (length %llu, specified %zu)", s.pos, n, want.size());
    s.pos += 3*P.SEED; check_stream(s, "signing"); return want;
}
static void op_open(Stream &s, const Place &p, const Bytes &pk, const Bytes &sm) {
    Bytes mm; int v = m_open(pk, sm, mm); Buf a(sm.size(), p.a[0], p.fill), b(sm.size(), p.a[1]), c(pk.size(), p.a[2]);
    if (sm.size()) memcpy(b.p, sm.data(), sm.size()); memcpy(c.p, pk.data(), pk.size()); unsigned long long n = 77; scribble(p.stack);
    int rc = g_open(a.p, &n, b.p, sm.size(), c.p); C.transitions++;
    if ((rc == 0) != (v == ACCEPT)) viol("opening returns %d after this history, specified verdict %d", rc, v);
    if (!a.intact() || !b.intact() || !c.intact()) viol("opening wrote outside its outputs");
    if ((sm.size() && memcmp(b.p, sm.data(), sm.size())) || memcmp(c.p, pk.data(), pk.size())) viol("opening changed its inputs");
    if (rc == 0 && v == ACCEPT && (n != mm.size() || (n && memcmp(a.p, mm.data(), n)))) viol("opening returns a different message after this history");
    check_stream(s, "opening");
}

enum { NOP0 = 9 };
static int nops() { return NOP0 + (int)bad.size(); }
static const char *NAMES[] = {"reseed+K", "K", "S(key0,short)", "S(key1,long)", "reseed+S(key0,short)", "S(last key)", "O(valid0)", "O(valid1)", "O(last)"};
struct State { Stream s; Key last; Bytes lastsm, lastpk; };
static void op(State &t, int o, const Place &p) {
    switch (o) {
    case 0: t.s.seed = SEEDS[1]; t.s.pos = 0; rng_start(t.s.seed); op_key(t.s, p, t.last); break;
    case 1: op_key(t.s, p, t.last); break;
    case 2: t.lastsm = op_sign(t.s, p, keys[0].sk, msgs[0]); t.lastpk = keys[0].pk; break;
    case 3: t.lastsm = op_sign(t.s, p, keys[1].sk, msgs[1]); t.lastpk = keys[1].pk; break;
    case 4: t.s.seed = SEEDS[1]; t.s.pos = 0; rng_start(t.s.seed); t.lastsm = op_sign(t.s, p, keys[0].sk, msgs[0]); t.lastpk = keys[0].pk; break;
    case 5: t.lastsm = op_sign(t.s, p, t.last.sk, msgs[2]); t.lastpk = t.last.pk; break;
    case 6: op_open(t.s, p, keys[0].pk, valid[0]); break;
    case 7: op_open(t.s, p, keys[1].pk, valid[1]); break;
    case 8: op_open(t.s, p, t.lastpk, t.lastsm); break;
    default: op_open(t.s, p, bad[o - NOP0].first, bad[o - NOP0].second);
    }
}
static std::string opname(int o) { return o < NOP0 ? NAMES[o] : "O(bad" + std::to_string(o - NOP0) + ")"; }
static State start() { State t; t.s.seed = SEEDS[0]; t.s.pos = 0; rng_start(t.s.seed); t.last = keys[1]; t.lastsm = valid[0]; t.lastpk = keys[0].pk; return t; }

static void setup() {
    env_reset(); SEEDS[0] = seed_label(900, 1); SEEDS[1] = seed_label(901, 1); Prng r(5);
    msgs[0] = r.bytes(5); msgs[1] = r.bytes(300); msgs[2] = {};
    for (int i = 0; i < 2; i++) { Bytes sd = seed_label(910 + i); Xof x(P.xof(), sd.data(), sd.size()); keygen(P, x, keys[i].pk, keys[i].sk); valid[i] = sign(P, x, keys[i].sk.data(), msgs[i].data(), msgs[i].size()); }
    const Bytes &v = valid[0]; const size_t salt = msgs[0].size(), act = salt + P.H(), dig = act + (size_t)P.W*P.actbytes();
    auto add = [&](const Bytes &pk, const Bytes &sm) { Bytes t; if (open(P, pk.data(), sm.data(), sm.size(), &t) == ACCEPT) { fprintf(stderr, "harness: altered input accepted by the model\n"); exit(9); } bad.push_back({pk, sm}); };
    { Bytes b = v; b[0] ^= 1; add(keys[0].pk, b); }                              /* message */
    { Bytes b = v; b.back() ^= 1; add(keys[0].pk, b); }                          /* seed count */
    add(keys[0].pk, Bytes(v.begin(), v.begin() + 9));                            /* too short */
    { Bytes k = keys[0].pk; k[P.SEED] ^= 1; add(k, v); }                         /* malformed key */
    { Bytes b = v; memset(&b[act], 0xff, P.actbytes()); add(keys[0].pk, b); }      /* ill-formed response */
    { Bytes b = v; b[dig] ^= 1; add(keys[0].pk, b); }                            /* digest */
    add(keys[1].pk, v);                                                          /* other key */
    add(keys[0].pk, {});
}
static std::string seqname(const std::vector<int> &q) { std::string s; for (int o : q) s += opname(o) + " "; return s; }
/* every sequence of exactly depth operations (all shorter ones are prefixes) */
static void e_hist(int depth) {
    setup(); std::vector<int> q(depth, 0); u64 i = 0;
    for (;;) {
        u64 id = i++;
        if (scn("history %s", seqname(q).c_str())) { State t = start(); for (int k = 0; k < depth; k++) op(t, q[k], place(id*3 + k)); }
        int k = depth - 1; while (k >= 0 && ++q[k] >= nops()) q[k--] = 0;
        if (k < 0) break;
    }
    C.extra["operations"] = nops();
}
/* long repetitions: every operation n times, every ordered pair alternating */
static void e_long(int n) {
    setup();
    for (int a = 0; a < nops(); a++) for (int b = 0; b < nops(); b++) {
        int reps = a == b ? n : n/8;
        if (!scn("(%s %s) x %d", opname(a).c_str(), opname(b).c_str(), reps)) continue;
        State t = start();
        for (int k = 0; k < reps; k++) { if (t.s.pos > 40u*3*P.SEED) { t.s.pos = 0; rng_start(t.s.seed); } op(t, a, place(k)); if (a != b) op(t, b, place(k*7 + 1)); }
    }
}
/* every operation with every argument at every alignment, every content of outputs and stack */
static void e_place(int step) {
    setup(); static const int F[] = {0, 255, 0xA5, 1, 0x7f, 0x80};
    for (int o = 0; o < nops(); o++) for (int arg = 0; arg < 3; arg++) for (unsigned al = 0; al < 32; al += step) for (int base = 0; base < 2; base++) {
        if (!scn("%s, argument %d at offset %u, others at %d", opname(o).c_str(), arg, al, base)) continue;
        Place p = {{(unsigned)base, (unsigned)base, (unsigned)base, 0}, F[al % 6], F[(al/6) % 6]}; p.a[arg] = al; State t = start(); op(t, o, p);
    }
    for (int o = 0; o < nops(); o++) for (int f = 0; f < 256; f++) {
        if (!scn("%s, outputs and stack filled with %d", opname(o).c_str(), f)) continue;
        Place p = {{(unsigned)f % 32, 3, 5, 0}, f, 255 - f}; State t = start(); op(t, o, p);
        p.stack = f; op(t, o, p);
    }
}
/* every drawn bit counts: the system stream is programmed, each bit flipped in turn */
static void e_draws(int step) {
    setup(); const size_t n = 3*P.SEED; Bytes seed = seed_label(950);
    for (int o = 0; o < 4; o++) for (int base = 0; base < 3; base++) for (long bit = -1; bit < (long)n*8; bit += bit < 0 ? 1 : step) {
        /* 0 key generation, 1 signing, 2 key generation after a signature, 3 signing after a signature */
        if (!scn("%s, drawn bytes %d, bit %ld flipped", o == 0 ? "K" : o == 1 ? "S" : o == 2 ? "S K" : "S S", base, bit)) continue;
        env_reset(); memo.clear(); Bytes s(2*n); Prng r(base); if (base == 1) memset(s.data(), 0, 2*n); else if (base == 2) memset(s.data(), 255, 2*n); else r.fill(s.data(), 2*n);
        const size_t off = o >= 2 ? n : 0;
        auto run = [&](const Bytes &st) {
            env_reset(); memo.clear(); env_script(P.xof(), seed.data(), seed.size(), st.data(), st.size()); Stream t{seed, 0}; rng_start(seed); Place p = place(bit + 1); Bytes out;
            if (off) op_sign(t, p, keys[0].sk, msgs[0]);
            if (o % 2 == 0) { Key k; op_key(t, p, k); out = k.pk; out.insert(out.end(), k.sk.begin(), k.sk.end()); } else out = op_sign(t, p, keys[0].sk, msgs[1]);
            return out; };
        /* results equal the model's (checked in the operation); here: the specified result depends on the bit */
        Bytes a = run(s); if (bit < 0) continue;
        s[off + bit/8] ^= 1u << bit % 8; Bytes b = run(s);
        if (a == b) viol("the output does not depend on bit %ld of the drawn bytes", bit);
    }
}
/* arguments that differ in a single bit, used one after the other: results of one must not leak into those of the other */
static void e_near(int step) {
    setup(); const size_t n = 3*P.SEED; Bytes seed = seed_label(960); Prng r0(77); const Bytes base = r0.bytes(n), ml = r0.bytes(40);
    for (long bit = 0; bit < (long)n*8; bit += step) for (int order = 0; order < 2; order++) {
        if (!scn("two key pairs whose drawn bytes differ in bit %ld, order %d", bit, order)) continue;
        memo.clear(); Bytes st[2] = {base, base}; st[1][bit/8] ^= 1u << bit % 8; Key k[2]; Bytes sm[2]; Stream t{seed, 0}; Place p = place(bit);
        for (int i = 0; i < 2; i++) { const int j = i ^ order; env_reset(); memo.clear(); env_script(P.xof(), seed.data(), seed.size(), st[j].data(), n); t.pos = 0; rng_start(seed); op_key(t, p, k[j]); }
        for (int i = 0; i < 2; i++) sm[i ^ order] = op_sign(t, p, k[i ^ order].sk, ml);
        for (int i : {0, 1, 0, 1}) op_open(t, p, k[i ^ order].pk, sm[i ^ order]);
        op_open(t, p, k[order].pk, sm[!order]); op_open(t, p, k[!order].pk, sm[order]); op_open(t, p, k[order].pk, sm[order]);
        Bytes m2 = op_sign(t, p, k[order].sk, ml); op_open(t, p, k[order].pk, m2); op_open(t, p, k[!order].pk, m2);
    }
    env_reset(); memo.clear();
    for (long bit = 0; bit < (long)ml.size()*8; bit += 1 + (step - 1)/4) {
        if (!scn("two messages that differ in bit %ld", bit)) continue;
        memo.clear(); Bytes m2 = ml; m2[bit/8] ^= 1u << bit % 8; State t = start(); Place p = place(bit);
        Bytes a = op_sign(t.s, p, keys[0].sk, ml), b = op_sign(t.s, p, keys[0].sk, m2); op_open(t.s, p, keys[0].pk, a); op_open(t.s, p, keys[0].pk, b); op_open(t.s, p, keys[0].pk, a);
        t.s.pos = 0; rng_start(t.s.seed); Bytes c = op_sign(t.s, p, keys[0].sk, m2); op_open(t.s, p, keys[0].pk, c); op_open(t.s, p, keys[0].pk, a);
        Bytes x = c; memcpy(x.data(), ml.data(), ml.size()); op_open(t.s, p, keys[0].pk, x); op_open(t.s, p, keys[0].pk, c);
    }
    const Bytes &v = valid[0];
    for (long bit = 0; bit < (long)v.size()*8; bit += step) {
        if (!scn("bit %ld of the signed message altered between two openings", bit)) continue;
        memo.clear(); Bytes b = v; b[bit/8] ^= 1u << bit % 8; State t = start(); Place p = place(bit); p.fill = 0;
        op_open(t.s, p, keys[0].pk, v); op_open(t.s, p, keys[0].pk, b); op_open(t.s, p, keys[0].pk, v);
    }
    for (long bit = 0; bit < (long)keys[0].pk.size()*8; bit += step) {
        if (!scn("bit %ld of the public key altered between two openings", bit)) continue;
        memo.clear(); Bytes b = keys[0].pk; b[bit/8] ^= 1u << bit % 8; State t = start(); Place p = place(bit); p.fill = 0;
        op_open(t.s, p, keys[0].pk, v); op_open(t.s, p, b, v); op_open(t.s, p, keys[0].pk, v);
    }
}
int main(int argc, char **argv) {
    h_init(argc, argv); P = load_params(); env_mode = 1; std::string cmd = argv[1]; int a = argc > 2 ? atoi(argv[2]) : 0;
    if (getenv("H_REAL")) env_mode = 0;
    if (cmd == "hist") e_hist(a); else if (cmd == "long") e_long(a); else if (cmd == "place") e_place(a); else if (cmd == "draws") e_draws(a); else if (cmd == "near") e_near(a); else return 2;
    return h_finish();
}
