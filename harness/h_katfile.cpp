/* P22: the known-answer generator (its main compiled as kat_main) and its file reader and writer. */
#include "hcommon.hpp"
#include "aes.hpp"
#include <sys/stat.h>
#include <dirent.h>
extern "C" { int kat_main(void); int FindMarker(FILE *, const char *); int ReadHex(FILE *, unsigned char *, size_t, char *); void fprintBstr(FILE *, char *, unsigned char *, unsigned long long);
  FILE *__real_fopen(const char *, const char *); }
/* a request file of our own in place of the generated one */
static std::string subst; static bool subst_on;
extern "C" FILE *__wrap_fopen(const char *n, const char *m) {
    size_t l = strlen(n); if (subst_on && m[0] == 'r' && l > 4 && !strcmp(n + l - 4, ".req")) return fmemopen((void *)subst.data(), subst.size(), "r");
    return __real_fopen(n, m); }
static std::string up(const u8 *b, size_t n) { std::string s; char t[3]; for (size_t i = 0; i < n; i++) { snprintf(t, 3, "%02X", b[i]); s += t; } return s; }
static std::string up(const Bytes &b) { return up(b.data(), b.size()); }
struct Rec { long count; Bytes seed, msg; u64 mlen; };
static std::string slurp(const std::string &p) { std::string s; FILE *f = __real_fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
/* strict independent reader: lines "name = value" */
struct Lines { std::vector<std::string> l; size_t i = 0; explicit Lines(const std::string &s) { size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); l.push_back(s.substr(p, e - p)); p = e + 1; } }
    bool field(const char *name, std::string &v) { if (i >= l.size()) return false; std::string k = std::string(name) + " ="; if (l[i].compare(0, k.size(), k)) return false; v = l[i].substr(k.size()); if (!v.empty() && v[0] == ' ') v.erase(0, 1); i++; return true; }
    bool blank() { if (i < l.size() && l[i].empty()) { i++; return true; } return false; } bool end() const { return i >= l.size(); } };
static bool unhex(const std::string &s, Bytes &b) { b.clear(); if (s.size() % 2) return false; for (size_t i = 0; i < s.size(); i += 2) { int v = 0; for (int k = 0; k < 2; k++) { char c = s[i + k]; v = v*16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 1000); } if (v > 255) return false; b.push_back((u8)v); } return true; }
static std::string dir;
static void clean() { if (dir.empty()) return; if (DIR *d = opendir(dir.c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); } }
static std::string only_file(const char *suffix) { std::string r; if (DIR *d = opendir(dir.c_str())) { while (dirent *e = readdir(d)) { std::string n = e->d_name; size_t l = strlen(suffix); if (n.size() > l && !n.compare(n.size() - l, l, suffix)) r = n; } closedir(d); } return r; }
static int generate(std::string &req, std::string &rsp) {
    clean(); if (chdir(dir.c_str())) { fprintf(stderr, "harness: chdir\n"); exit(9); }
    fflush(stdout); int o = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); int rc = kat_main(); fflush(stdout); dup2(o, 1); close(o); close(nul);
    std::string a = only_file(".req"), b = only_file(".rsp"); req = slurp(dir + "/" + a); rsp = slurp(dir + "/" + b); char want[64]; snprintf(want, sizeof want, "PQCsignKAT_%d.rsp", GP.pkbytes); if (b != want && !b.empty()) viol("response file is called %s", b.c_str()); if (chdir("/")) {} return rc; }
static void judge(const std::string &rsp, const std::vector<Rec> &want) {
    Lines L(rsp); if (L.i >= L.l.size() || L.l[0].empty() || L.l[0][0] != '#') { viol("response file has no header"); return; } L.i = 1; L.blank();
    for (size_t k = 0; k < want.size(); k++) { const Rec &w = want[k]; std::string v; Bytes b; C.transitions++;
        if (!L.field("count", v) || v != std::to_string(w.count)) { viol("record %zu: count %s, requested %ld", k, v.c_str(), w.count); return; }
        if (!L.field("seed", v) || !unhex(v, b) || b != w.seed) { viol("record %zu: seed differs from the request", k); return; }
        if (!L.field("mlen", v) || v != std::to_string(w.mlen)) { viol("record %zu: mlen %s, requested %llu", k, v.c_str(), (unsigned long long)w.mlen); return; }
        if (!L.field("msg", v) || !unhex(v, b) || b != w.msg) { viol("record %zu: message differs from the request", k); return; }
        Buf pk(GP.pkbytes), sk(GP.skbytes), sm(w.mlen + GP.sigmax), m(w.mlen + GP.sigmax); unsigned long long sl = 0, ml = 0; Bytes msg = w.msg;
        g_seed(w.seed.data(), 48); g_keypair(pk.p, sk.p); g_sign(sm.p, &sl, msg.data(), w.mlen, sk.p);
        if (!L.field("pk", v) || v != up(pk.p, GP.pkbytes)) { viol("record %zu: recorded public key is not the one made from the recorded seed", k); return; }
        if (!L.field("sk", v) || v != up(sk.p, GP.skbytes)) { viol("record %zu: recorded secret key is not the one made from the recorded seed", k); return; }
        if (!L.field("smlen", v) || v != std::to_string(sl)) { viol("record %zu: smlen %s, signing gives %llu", k, v.c_str(), sl); return; }
        if (!L.field("sm", v) || !unhex(v, b) || b.size() != sl || memcmp(b.data(), sm.p, sl)) { viol("record %zu: recorded signed message is not the one made from the recorded seed", k); return; }
        if (g_open(m.p, &ml, b.data(), b.size(), pk.p) || ml != w.mlen || memcmp(m.p, msg.data(), ml)) { viol("record %zu: recorded signed message does not open", k); return; }
        L.blank(); C.traces++; }
    while (L.blank()) {} if (!L.end()) viol("response file has %zu lines beyond the requested records: %s", L.l.size() - L.i, L.l[L.i].c_str());
}
static void e_file() {
    if (!scn("the generated request and response files")) return;
    std::string req, rsp; int rc = generate(req, rsp); if (rc) { viol("the generator fails with code %d", rc); return; }
    u8 e[48]; for (int i = 0; i < 48; i++) e[i] = i; Drbg d; d.init(e, nullptr); std::vector<Rec> want; Lines L(req);
    for (int i = 0; i < 100; i++) { Rec r; r.count = i; r.seed = d.gen(48); r.mlen = 33*(i + 1); r.msg = d.gen(r.mlen); want.push_back(r); std::string v; Bytes b;
        if (!L.field("count", v) || v != std::to_string(i)) { viol("request %d: count %s", i, v.c_str()); return; }
        if (!L.field("seed", v) || !unhex(v, b) || b != r.seed) { viol("request %d: seed is not the random source's output", i); return; }
        if (!L.field("mlen", v) || v != std::to_string(r.mlen)) { viol("request %d: mlen %s", i, v.c_str()); return; }
        if (!L.field("msg", v) || !unhex(v, b) || b != r.msg) { viol("request %d: message is not the random source's output", i); return; }
        for (const char *n : {"pk", "sk", "smlen", "sm"}) if (!L.field(n, v) || !v.empty()) { viol("request %d: field %s", i, n); return; }
        L.blank(); }
    if (!L.end()) viol("request file has lines beyond record 100");
    judge(rsp, want);
}
static std::string req_text(const std::vector<Rec> &rs, int style) { std::string s; for (auto &r : rs) { std::string h = up(r.msg), q = up(r.seed); if (style == 1) { for (auto &c : h) c = (char)tolower(c); for (auto &c : q) c = (char)tolower(c); }
        s += "count = " + std::to_string(r.count) + "\nseed = " + q + "\nmlen = " + std::to_string(r.mlen) + "\nmsg = " + h + "\npk =\nsk =\nsmlen =\nsm =\n\n"; } return s; }
static void e_requests(bool few) {
    const bool deep = C.tier; subst_on = true;
    auto go = [&](const std::vector<Rec> &rs, int style) { subst = req_text(rs, style); std::string a, b; int rc = generate(a, b); if (rc) { viol("the generator fails with code %d", rc); return; } judge(b, rs); };
    if (few) { for (u64 m : {1ull, 100ull}) { if (!scn("one request, message of %llu bytes", (unsigned long long)m)) continue; Prng r(m); Rec x{(long)m, r.bytes(48), r.bytes(m), m}, y{7, r.bytes(48), r.bytes(m + 3), m + 3}; go({x, y}, 0); } subst_on = false; return; }
    for (int st = 0; st < 2; st++) for (u64 m = 1; m <= (deep ? 400 : 150); m++) { if (!scn("one request, message of %llu bytes, style %d", (unsigned long long)m, st)) continue; Prng r(m + st); Rec x{(long)m, r.bytes(48), r.bytes(m), m}; go({x}, st); }
    static const int V[] = {0x00, 0xff, 0x0f, 0xf0, 0xab, 0x0a, 0xa0, 0x61}; 
    for (int a : V) for (int b : V) { if (!scn("bytes %02x and %02x in seed and message", a, b)) continue; Rec x{0, Bytes(48, (u8)a), Bytes(40, (u8)b), 40}; x.seed[47] = (u8)b; x.msg[0] = (u8)a; Rec y{1, Bytes(48, (u8)b), Bytes(3, (u8)a), 3}; go({x, y}, 0); }
    for (int s = 0; s < 125; s++) { if (!scn("request sequence %d", s)) continue; std::vector<Rec> rs; static const u64 LN[] = {1, 2, 33, 136, 300}; static const long CN[] = {0, 7, 99, 100, 123456}; for (int k = 0, t = s; k < 3; k++, t /= 5) { Prng r(s*3 + k); rs.push_back({CN[t % 5], r.bytes(48), r.bytes(LN[t % 5]), LN[t % 5]}); } go(rs, s & 1); }
    for (int n = 0; n < 5; n++) { if (!scn("%d requests", n*40)) continue; std::vector<Rec> rs; for (int k = 0; k < n*40; k++) { Prng r(k); rs.push_back({k, r.bytes(48), r.bytes(1 + k % 3), (u64)(1 + k % 3)}); } go(rs, 0); }
    for (u64 m : {1000ull, 3300ull, 3301ull, 4095ull, 4096ull, 5000ull, 66000ull}) { if (!scn("message of %llu bytes", (unsigned long long)m)) continue; Prng r(m); Rec x{(long)m, r.bytes(48), r.bytes(m), m}; Rec y{1, r.bytes(48), r.bytes(5), 5}; if (m > 6000 && !deep) continue; go({x, y}, 0); }
    subst_on = false;
}
/* the marker search over every text and every marker of a small alphabet */
static void find(const std::string &text, const std::string &mk) {
    FILE *f = fmemopen((void *)text.data(), text.size(), "r"); if (!f) return; C.transitions++;
    int rc = FindMarker(f, mk.c_str()); long at = ftell(f); size_t w = text.find(mk); fclose(f);
    if ((rc != 0) != (w != std::string::npos)) viol("searching %zu bytes for a marker of %zu: result %d", text.size(), mk.size(), rc);
    else if (rc && at != (long)(w + mk.size())) viol("marker found at %zu, reading continues at %ld", w, at); }
static void e_find() {
    const bool deep = C.tier;
    for (int set = 0; set < 3; set++) { static const char A[3][4] = {{'s', 'e', ' ', '='}, {'a', '\0', (char)0xff, 'b'}, {'\n', 'x', '=', ' '}}; const int na = set == 0 ? (deep ? 4 : 3) : 3, ml = deep ? 9 : 7;
        std::vector<std::string> marks; for (int l = 1; l <= (deep ? 5 : 4); l++) { int n = 1; for (int i = 0; i < l; i++) n *= na; for (int c = 0; c < n; c++) { std::string m; for (int i = 0, t = c; i < l; i++, t /= na) m += A[set][t % na]; if (m.find('\0') == std::string::npos) marks.push_back(m); } }
        for (int l = 1; l <= ml; l++) { int n = 1; for (int i = 0; i < l; i++) n *= na; for (int c = 0; c < n; c++) { std::string t; for (int i = 0, q = c; i < l; i++, q /= na) t += A[set][q % na]; if (!scn("text %d of length %d, alphabet %d", c, l, set)) continue; for (auto &m : marks) find(t, m); } } }
    for (size_t ml = 1; ml <= 48; ml++) for (int kind = 0; kind < 6; kind++) { if (!scn("marker of %zu characters, kind %d", ml, kind)) continue; std::string m; for (size_t i = 0; i < ml; i++) m += kind & 1 ? 'a' : (char)('a' + i % 23); m[ml - 1] = 'z';
        for (size_t pre = 0; pre < 2*ml + 3; pre++) { std::string t = kind < 2 ? std::string(pre, 'a') : kind < 4 ? m.substr(0, ml - 1) + std::string(pre, 'q') : m.substr(0, pre % ml) + m.substr(0, ml/2); find(t + m + "tail", m); find(t + m, m); if (!(t + m.substr(0, ml - 1)).empty()) find(t + m.substr(0, ml - 1), m); } }
}
/* hexadecimal fields */
static void e_hex() {
    const bool deep = C.tier; static char mk[] = "msg = ";
    auto round = [&](const Bytes &v, const std::string &before, const std::string &after, int lower) {
        char *buf = nullptr; size_t n = 0; FILE *o = open_memstream(&buf, &n); fwrite(before.data(), 1, before.size(), o); Bytes in = v; in.push_back(7); fprintBstr(o, mk, in.data(), v.size()); fwrite(after.data(), 1, after.size(), o); fclose(o);
        std::string t(buf, n); free(buf); std::string h = v.empty() ? "00" : up(v); if (t != before + mk + h + "\n" + after) viol("a field of %zu bytes is written as %s", v.size(), t.substr(before.size(), 60).c_str());
        if (lower) for (size_t i = before.size() + sizeof mk - 1; i < before.size() + sizeof mk - 1 + h.size(); i++) t[i] = (char)tolower(t[i]);
        FILE *f = fmemopen((void *)t.data(), t.size(), "r"); Buf b(v.size() ? v.size() : 1); C.transitions++; int rc = ReadHex(f, b.p, v.size(), mk);
        if (rc != 1) viol("a field of %zu bytes is not found", v.size()); else if (!b.intact()) viol("reading a field of %zu bytes writes outside the buffer", v.size()); else if (!v.empty() && memcmp(b.p, v.data(), v.size())) viol("a field of %zu bytes reads back differently", v.size());
        else if (v.empty() && b.p[0] != 0) viol("an empty field reads back as %02x", b.p[0]);
        else if (!v.empty()) { std::string rest; int c; while ((c = fgetc(f)) != EOF) rest += (char)c; if (rest != after) viol("after a field of %zu bytes %zu characters are left, expected %zu", v.size(), rest.size(), after.size()); C.traces++; }
        fclose(f); };
    for (size_t n = 0; n <= (deep ? 700u : 300u); n++) for (int k = 0; k < 4; k++) { if (!scn("field of %zu bytes, content %d", n, k)) continue; Prng r(n); Bytes v = r.bytes(n); if (k == 1) v.assign(n, 0); if (k == 2) v.assign(n, 0xff); if (k == 3) for (size_t i = 0; i < n; i++) v[i] = (u8)(i*17); round(v, k & 1 ? "pk = 00\n" : "", k & 2 ? "sk = 11\n" : "", k & 1); }
    for (size_t n : {1023u, 1024u, 1025u, 2048u, 4096u, 13000u}) { if (n > 5000 && !deep) continue; if (!scn("field of %zu bytes", n)) continue; Prng r(n); round(r.bytes(n), "", "x\n", 0); }
    for (int a = 0; a < 256; a++) for (int lower = 0; lower < 2; lower++) { if (!scn("byte %02x in every position", a)) continue; for (int n = 1; n < 5; n++) for (int i = 0; i < n; i++) { Bytes v(n, (u8)~a); v[i] = (u8)a; round(v, "", "", lower); } }
    /* text before the field: every string over the marker's own characters that does not contain it */
    static const char A[] = "msg= \n"; const int D = deep ? 6 : 5; for (int l = 0; l <= D; l++) { int n = 1; for (int i = 0; i < l; i++) n *= 6; for (int c = 0; c < n; c++) { std::string t; for (int i = 0, q = c; i < l; i++, q /= 6) t += A[q % 6]; if (!scn("text %d of length %d before the field", c, l)) continue; round({0x0a, 0xb1, 0xff}, t, "\nmsg = 22\n", 0); } }
    for (size_t k = 0; k < sizeof mk; k++) { if (!scn("a prefix of %zu marker characters before the field", k)) continue; round({1, 2}, std::string(mk, k), "", 0); round({1, 2}, std::string(mk, k) + std::string(mk, k), "", 0); }
    /* a sequence of fields is read one after the other */
    static const size_t LN[] = {1, 2, 16, 48, 99}; for (int s = 0; s < 125; s++) { if (!scn("field sequence %d", s)) continue; char *buf = nullptr; size_t n = 0; FILE *o = open_memstream(&buf, &n); std::vector<Bytes> vs; static char names[3][8] = {"seed = ", "msg = ", "sm = "};
        for (int k = 0, t = s; k < 3; k++, t /= 5) { Prng r(s*3 + k); vs.push_back(r.bytes(LN[t % 5])); fprintBstr(o, names[k], vs[k].data(), vs[k].size()); } fclose(o); FILE *f = fmemopen(buf, n, "r");
        for (int k = 0; k < 3; k++) { Bytes b(vs[k].size()); C.transitions++; if (ReadHex(f, b.data(), b.size(), names[k]) != 1 || b != vs[k]) { viol("field %d of a sequence reads back differently", k); break; } } fclose(f); free(buf); }
    for (int n = 1; n < 40; n++) { if (!scn("missing field of %d bytes", n)) continue; std::string t = "seed = 00\n"; FILE *f = fmemopen((void *)t.data(), t.size(), "r"); Bytes b(n); if (ReadHex(f, b.data(), n, mk) != 0) viol("a missing field is reported as read"); fclose(f); }
}
int main(int argc, char **argv) {
    h_init(argc, argv); P = load_params(); env_mode = getenv("H_REAL") ? 0 : 1; std::string cmd = argv[1];
    if (cmd == "file" || cmd == "requests" || cmd == "few") { const char *cf = getenv("H_CUR"); std::string t = (cf ? std::string(cf) : std::string("/tmp/kat")) + ".dir-XXXXXX"; if (!mkdtemp(&t[0])) return 9; dir = t; }
    if (cmd == "file") e_file(); else if (cmd == "requests") e_requests(false); else if (cmd == "few") e_requests(true); else if (cmd == "find") e_find(); else if (cmd == "hex") e_hex(); else return 2;
    if (!dir.empty()) { clean(); rmdir(dir.c_str()); }
    return h_finish();
}
