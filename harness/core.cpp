#include "sut.hpp"
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <openssl/sha.h>
#include <openssl/rand.h>

std::map<std::string, Slot> slots;
std::map<std::string, std::function<void(void *)>> &destroyers() { static auto *m = new std::map<std::string, std::function<void(void *)>>; return *m; }
static std::map<std::string, std::pair<int, Handler>> *table;

void die(const std::string &m) { fprintf(stderr, "harness: %s\n", m.c_str()); fflush(stdout); _exit(3); }
void reg(const char *name, int n, Handler h) { if (!table) table = new std::map<std::string, std::pair<int, Handler>>; (*table)[name] = {n, h}; }
void drop(const std::string &n) {
    auto it = slots.find(n);
    if (it == slots.end()) return;
    Slot s = it->second; slots.erase(it);
    auto d = destroyers().find(s.type);
    if (d == destroyers().end()) die(std::string("no destroyer for ") + s.type);
    d->second(s.p);
}
void forget(const std::string &n) { slots.erase(n); }
Out &Out::str(const char *k, const std::string &v) {
    key(k); s += '"';
    for (unsigned char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); s += t; } else s += c; }
    s += '"'; return *this;
}
// Interned by SHA-256 of the content so that long runs do not keep every byte string alive.
static std::map<std::string, int> interned;
int tok(const void *p, size_t n) {
    unsigned char h[32]; SHA256((const unsigned char *)p, n, h);
    std::string k((char *)h, 32);
    auto it = interned.find(k);
    if (it != interned.end()) return it->second;
    int v = (int)interned.size() + 1; interned[k] = v; return v;
}
int btok(const wickr_buffer_t *b) { return b ? tok(b->bytes, b->length) : 0; }
wickr_buffer_t *mkbuf(const std::string &s) { return wickr_buffer_create((const uint8_t *)s.data(), s.size()); }
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
wickr_buffer_t *mkhex(const std::string &s) {
    if (s == "-" || s.empty()) return nullptr;
    std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(hv(s[i]) * 16 + hv(s[i + 1]));
    return wickr_buffer_create((const uint8_t *)r.data(), r.size());
}
std::string hex(const wickr_buffer_t *b) {
    if (!b) return "-";
    static const char *d = "0123456789abcdef"; std::string r;
    for (size_t i = 0; i < b->length; i++) { r += d[b->bytes[i] >> 4]; r += d[b->bytes[i] & 15]; }
    return r;
}
long long num(const std::string &s) { return strtoll(s.c_str(), nullptr, 0); }
unsigned long long unum(const std::string &s) { return strtoull(s.c_str(), nullptr, 0); }
wickr_cipher_t cipher_of(const std::string &s) { if (s == "GCM") return CIPHER_AES256_GCM; if (s == "CTR") return CIPHER_AES256_CTR; die("cipher " + s); }
wickr_digest_t digest_of(const std::string &s) { if (s == "256") return DIGEST_SHA_256; if (s == "384") return DIGEST_SHA_384; if (s == "512") return DIGEST_SHA_512; die("digest " + s); }
wickr_buffer_t *buf(const std::string &n) { return get<wickr_buffer_t>(n); }
// short needles turn up by chance
bool contains(const wickr_buffer_t *h, const wickr_buffer_t *n) { return h && n && n->length >= 8 && h->length >= n->length && memmem(h->bytes, h->length, n->bytes, n->length); }
bool rec_ok(void *p) { return p != nullptr; }

// ---- engine wrapper ------------------------------------------------------------------------
static wickr_crypto_engine_t REAL;
wickr_crypto_engine_t ENG;
std::vector<EncEv> enc_log;
long fault_at = 0, fault_calls = 0; bool fault_fired = false;
bool record_enc = false;
static std::string fault_op;       // every call of this kind fails
static bool opfault(const char *n) { return fault_op == n; }
static bool faulted() { fault_calls++; if (fault_at && fault_calls == fault_at) { fault_fired = true; return true; } return false; }
extern "C" int vp_fault(void) { return faulted(); }      // the primitives below the engine
extern "C" {
static wickr_buffer_t *e_random(size_t n) { if (faulted() || opfault("random")) return nullptr; auto *r = REAL.wickr_crypto_engine_crypto_random(n); if (n == 32) er_secret("newsecret", r); return r; }
static wickr_cipher_key_t *e_ckr(wickr_cipher_t c) { if (faulted() || opfault("keyrand")) return nullptr; auto *r = REAL.wickr_crypto_engine_cipher_key_random(c); if (r) er_secret("newkey", r->key_data); return r; }
static wickr_cipher_result_t *e_enc(const wickr_buffer_t *p, const wickr_buffer_t *aad, const wickr_cipher_key_t *k, const wickr_buffer_t *iv) {
    if (faulted() || opfault("enc")) return nullptr;
    er_secret("usedkey", k ? k->key_data : nullptr); er_secret("closed", p);
    wickr_cipher_result_t *r = REAL.wickr_crypto_engine_cipher_encrypt(p, aad, k, iv);
    if (r && record_enc) enc_log.push_back({btok(k->key_data), btok(r->iv), r->cipher_text ? r->cipher_text->length : 0});
    return r;
}
static wickr_buffer_t *e_dec(const wickr_cipher_result_t *c, const wickr_buffer_t *aad, const wickr_cipher_key_t *k, bool only) { if (faulted() || opfault("dec")) return nullptr; er_secret("usedkey", k ? k->key_data : nullptr); auto *r = REAL.wickr_crypto_engine_cipher_decrypt(c, aad, k, only); er_secret("opened", r); return r; }
static wickr_buffer_t *e_digest(const wickr_buffer_t *b, const wickr_buffer_t *s, wickr_digest_t m) { if (faulted() || opfault("digest")) return nullptr; return REAL.wickr_crypto_engine_digest(b, s, m); }
wickr_ec_key_t *preset_key; wickr_ecdsa_result_t *preset_sig;      // what is generated and signed next, where a recorded conversation is played again
static wickr_ec_key_t *e_ecrand(wickr_ec_curve_t c) { if (faulted() || opfault("ecrand")) return nullptr; if (preset_key) { auto *k = preset_key; preset_key = nullptr; return k; } auto *r = REAL.wickr_crypto_engine_ec_rand_key(c); if (r) er_secret("newec.pri", r->pri_data); return r; }
static wickr_ec_key_t *e_ecimp(const wickr_buffer_t *b, bool p) { if (faulted() || opfault("ecimport")) return nullptr; return REAL.wickr_crypto_engine_ec_key_import(b, p); }
static wickr_ecdsa_result_t *e_sign(const wickr_ec_key_t *k, const wickr_buffer_t *d, wickr_digest_t m) { if (faulted() || opfault("sign")) return nullptr; if (preset_sig) { auto *g = preset_sig; preset_sig = nullptr; return g; } return REAL.wickr_crypto_engine_ec_sign(k, d, m); }
static bool e_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, const wickr_buffer_t *d) { if (faulted() || opfault("verify")) return false; return REAL.wickr_crypto_engine_ec_verify(s, k, d); }
static wickr_buffer_t *e_toraw(const wickr_ecdsa_result_t *s) { if (faulted() || opfault("toraw")) return nullptr; return REAL.wickr_crypto_engine_ecdsa_to_raw(s); }
static wickr_ecdsa_result_t *e_fromraw(const wickr_ec_curve_t c, const wickr_digest_t d, const wickr_buffer_t *b) { if (faulted() || opfault("fromraw")) return nullptr; return REAL.wickr_crypto_engine_ecdsa_from_raw(c, d, b); }
static wickr_buffer_t *e_shared(const wickr_ec_key_t *l, const wickr_ec_key_t *p) { if (faulted() || opfault("ecdh")) return nullptr; auto *r = REAL.wickr_crypto_engine_gen_shared_secret(l, p); er_secret("shared", r); return r; }
static wickr_buffer_t *e_hmac(const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t m) { if (faulted() || opfault("hmac")) return nullptr; return REAL.wickr_crypto_engine_hmac_create(d, k, m); }
static bool e_hmacv(const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t m, const wickr_buffer_t *x) { if (faulted() || opfault("hmacv")) return false; return REAL.wickr_crypto_engine_hmac_verify(d, k, m, x); }
static wickr_kdf_result_t *e_kdf(wickr_kdf_algo_t a, const wickr_buffer_t *p) { if (faulted() || opfault("kdf")) return nullptr; auto *r = REAL.wickr_crypto_kdf_gen(a, p); if (r) er_secret("derived", r->hash); return r; }
static wickr_kdf_result_t *e_kdfm(const wickr_kdf_meta_t *m, const wickr_buffer_t *p) { if (faulted() || opfault("kdfm")) return nullptr; auto *r = REAL.wickr_crypto_kdf_meta(m, p); if (r) er_secret("derived", r->hash); return r; }
}
static void init_engine() {
    REAL = wickr_crypto_engine_get_default();
    ENG = REAL;
    ENG.wickr_crypto_engine_crypto_random = e_random;
    ENG.wickr_crypto_engine_cipher_key_random = e_ckr;
    ENG.wickr_crypto_engine_cipher_encrypt = e_enc;
    ENG.wickr_crypto_engine_cipher_decrypt = e_dec;
    ENG.wickr_crypto_engine_digest = e_digest;
    ENG.wickr_crypto_engine_ec_rand_key = e_ecrand;
    ENG.wickr_crypto_engine_ec_key_import = e_ecimp;
    ENG.wickr_crypto_engine_ec_sign = e_sign;
    ENG.wickr_crypto_engine_ec_verify = e_verify;
    ENG.wickr_crypto_engine_ecdsa_to_raw = e_toraw;
    ENG.wickr_crypto_engine_ecdsa_from_raw = e_fromraw;
    ENG.wickr_crypto_engine_gen_shared_secret = e_shared;
    ENG.wickr_crypto_engine_hmac_create = e_hmac;
    ENG.wickr_crypto_engine_hmac_verify = e_hmacv;
    ENG.wickr_crypto_kdf_gen = e_kdf;
    ENG.wickr_crypto_kdf_meta = e_kdfm;
}

// ---- generic commands ------------------------------------------------------------------------
std::map<std::string, int> pushn;
std::vector<std::function<void()>> &reset_hooks() { static std::vector<std::function<void()>> v; return v; }
static RegType<wickr_buffer_t> rt_buf(wickr_buffer_destroy_zero);
CMD("reset", 1) { std::vector<std::string> n; for (auto &x : slots) n.push_back(x.first); for (auto &x : n) drop(x); interned.clear(); pushn.clear(); enc_log.clear(); fault_at = fault_calls = 0; fault_fired = false; record_enc = false; fault_op.clear(); for (auto &h : reset_hooks()) h(); o.b("r", true); }
CMD("drop", 2) { bool had = slots.count(a[1]) != 0; drop(a[1]); o.b("r", had); }
CMD("buf", 3) { o.b("r", put(a[1], a[2] == "rand" ? openssl_crypto_random(unum(a[3])) : a[2] == "hex" ? mkhex(a[3]) : mkbuf(a[2]))); }
CMD("bufhex", 2) { o.str("hex", hex(buf(a[1]))); }
CMD("buftok", 2) { auto *b = buf(a[1]); o.i("t", btok(b)).i("len", b ? (long long)b->length : -1); }
CMD("bufcopy", 3) { o.b("r", put(a[1], wickr_buffer_copy(buf(a[2])))); }
// mutate <dst> <src> <kind> [args]: flip pos mask | trunc n | ext hex | set pos hex | cut pos n
CMD("mutate", 4) {
    auto *s = buf(a[2]); if (!s) { put<wickr_buffer_t>(a[1], nullptr); o.b("r", false); return; }
    std::string v((char *)s->bytes, s->length);
    auto pos = [&](const std::string &t) { long long p = num(t); if (p < 0) p += (long long)v.size(); return (size_t)p; };
    if (a[3] == "flip") { size_t p = pos(a[4]); if (p >= v.size()) { o.b("r", false); return; } v[p] ^= (char)num(a[5]); }
    else if (a[3] == "trunc") v.resize(std::min(v.size(), a[4][0] == '%' ? v.size() * (size_t)num(a[4].substr(1)) / 1000 : pos(a[4])));
    else if (a[3] == "ext") { auto *x = mkhex(a[4]); v.append((char *)x->bytes, x->length); wickr_buffer_destroy(&x); }
    else if (a[3] == "pad") v.append((size_t)num(a[4]), (char)0);
    else if (a[3] == "set") { auto *x = mkhex(a[5]); v.replace(pos(a[4]), x->length, (char *)x->bytes, x->length); wickr_buffer_destroy(&x); }
    else if (a[3] == "cut") v.erase(pos(a[4]), (size_t)num(a[5]));
    else die("mutate " + a[3]);
    o.b("r", put(a[1], v.empty() ? nullptr : wickr_buffer_create((const uint8_t *)v.data(), v.size())));
}
CMD("enclog", 2) { if (a[1] == "on") { record_enc = true; enc_log.clear(); o.b("r", true); } else {
    std::string s = "["; for (size_t i = 0; i < enc_log.size(); i++) { if (i) s += ","; s += "[" + std::to_string(enc_log[i].key) + "," + std::to_string(enc_log[i].iv) + "]"; } s += "]"; o.raw("enc", s); enc_log.clear(); } }
CMD("fault", 2) { o.b("r", true); fault_at = num(a[1]); fault_calls = 0; fault_fired = false; }
CMD("faultop", 2) { fault_op = a[1] == "-" ? "" : a[1]; o.b("r", true); }
CMD("faultq", 1) { o.i("calls", fault_calls).b("fired", fault_fired); fault_at = 0; }
// Random bytes that are the same in every run of a sweep, so that results can be compared
static uint64_t det_state = 0; static long det_seed = 0;
static int det_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { det_state += 0x9E3779B97F4A7C15ULL; uint64_t z = det_state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; b[i] = (unsigned char)((z ^ (z >> 31)) >> 24); } return 1; }
static int det_status() { return 1; }
static RAND_METHOD det_rand = { nullptr, det_bytes, nullptr, nullptr, det_bytes, det_status };
// sweep <command> [; <command>...]: the last one again and again, each time with another call of a primitive failing
// (those before it undisturbed, anew each time); "runs": its distinct results under a failure, "good": its result without
CMD("sweep", 2) {
    std::vector<Args> cs(1);
    for (size_t i = 1; i < a.size(); i++) if (a[i] == ";") cs.emplace_back(); else cs.back().push_back(a[i]);
    std::map<std::string, long> seen; long n = 1;
    bool rec = record_enc; auto log = enc_log; record_enc = false; enc_log.clear();
    auto *method = RAND_get_rand_method(); RAND_set_rand_method(&det_rand); det_seed++;
    for (;; n++) {
        det_state = (uint64_t)det_seed << 32;
        std::string r;
        for (size_t i = 0; i < cs.size(); i++) {
            auto it = table->find(cs[i][0]); if (it == table->end()) die("unknown command " + cs[i][0]);
            bool last = i + 1 == cs.size();
            if (last) { fault_at = n; fault_calls = 0; fault_fired = false; }
            Out x; it->second.second(cs[i], x);
            if (last) { fault_at = 0; r = "{" + x.s + "}"; }
        }
        if (!fault_fired || n > 5000) { o.raw("good", r); break; }
        seen.emplace(r, n);
    }
    record_enc = rec; enc_log = log; RAND_set_rand_method(method);
    std::string s = "["; int k = 0;
    for (auto &x : seen) if (k++ < 40) s += (k > 1 ? ",{\"n\":" : "{\"n\":") + std::to_string(x.second) + ",\"x\":" + x.first + "}";
    o.i("calls", n - 1).raw("runs", s + "]");
}
// push <src> <prefix>: moves the object, if there is one, to <prefix><next index>
CMD("push", 3) {
    auto it = slots.find(a[1]);
    if (it == slots.end()) { o.i("idx", 0); return; }
    Slot s = it->second; slots.erase(it);
    int n = ++pushn[a[2]]; std::string nm = a[2] + std::to_string(n);
    drop(nm); slots[nm] = s; o.i("idx", n);
}
CMD("echo", 1) { o.b("r", true); }

int main(int argc, char **argv) {
    init_engine();
    std::string line; std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, line)) {
        Args a; std::istringstream is(line); std::string t;
        while (is >> t) a.push_back(t);
        if (a.empty()) continue;
        auto it = table->find(a[0]);
        if (it == table->end()) die("unknown command " + a[0]);
        if ((int)a.size() < it->second.first) die("too few arguments: " + line);
        Out o;
        er_begin();
        it->second.second(a, o);
        er_end(o);
        std::string r = "{" + o.s + "}\n";
        fwrite(r.data(), 1, r.size(), stdout);
        fflush(stdout);
    }
    return 0;
}
