// File encryption, in a scratch directory of its own.  fopen and rename of the library are wrapped at link time, so
// that reads, writes, closing and renaming can fail, or the process can die, at a chosen byte or call.
#include "sut.hpp"
#include <filesystem>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/stat.h>
namespace fs = std::filesystem;
static std::string dir;
static void wipe() { if (!dir.empty()) { std::error_code e; fs::remove_all(dir, e); dir.clear(); } }
static OnReset fr(wipe);
static struct AtEnd { ~AtEnd() { wipe(); } } at_end;
static std::string P(const std::string &n) {
    if (n == "-") return "";
    if (dir.empty()) { const char *b = getenv("VP_FS"); std::string t = std::string(b ? b : "/tmp") + "/file-XXXXXX"; if (!mkdtemp(&t[0])) die("mkdtemp " + t); dir = t; }
    for (char c : n) if (!isalnum(c) && c != '.' && c != '/' && c != '_') die("path " + n);
    if (n.find("..") != std::string::npos) die("path " + n);
    return dir + "/" + n;
}
static bool slurp(const std::string &p, std::string &s) {
    int f = open(p.c_str(), O_RDONLY | O_NOFOLLOW); if (f < 0) return false;
    s.clear(); char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) s.append(b, n);
    close(f); return n == 0;
}
static void spit(const std::string &p, const std::string &s) {
    int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0) die("write " + p);
    size_t o = 0; while (o < s.size()) { ssize_t n = write(f, s.data() + o, s.size() - o); if (n <= 0) die("write " + p); o += n; }
    close(f);
}
// ---- faults ---------------------------------------------------------------------------------------------------
static struct { bool on; long rd, wr, close_w, ren; bool once, fired; long crash, ops; } F;
static void clear_faults() { memset(&F, 0, sizeof F); F.rd = F.wr = -1; }
static bool dying() { F.ops++; return F.crash && F.ops == F.crash; }
struct Ck { int fd; bool w; long total; };
static ssize_t ck_read(void *c, char *b, size_t n) {
    Ck *k = (Ck *)c; if (dying()) _exit(42);
    if (F.rd >= 0) { off_t p = lseek(k->fd, 0, SEEK_CUR); if (p >= F.rd) { F.fired = true; errno = EIO; return -1; } if ((off_t)n > F.rd - p) n = F.rd - p; }
    return read(k->fd, b, n);
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    Ck *k = (Ck *)c; if (dying()) _exit(42);
    if (F.wr >= 0 && !(F.once && F.fired) && k->total + (long)n > F.wr) {
        long m = F.wr - k->total;
        if (m > 0 && !F.once) { if (write(k->fd, b, m) > 0) k->total += m; }
        F.fired = true; errno = ENOSPC; return 0;
    }
    ssize_t r = write(k->fd, b, n); if (r > 0) k->total += r; return r < 0 ? 0 : r;
}
static int ck_seek(void *c, off64_t *o, int w) { Ck *k = (Ck *)c; if (dying()) _exit(42); off_t r = lseek(k->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { Ck *k = (Ck *)c; if (k->w && dying()) _exit(42); close(k->fd); bool f = k->w && F.close_w; if (f) F.fired = true; delete k; if (f) { errno = EIO; return -1; } return 0; }
extern "C" {
FILE *__real_fopen(const char *, const char *); int __real_rename(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
    if (!F.on) return __real_fopen(p, m);
    bool w = strchr(m, 'w') || strchr(m, '+') || strchr(m, 'a');
    FILE *f = __real_fopen(p, m); if (!f) return nullptr;
    int fd = dup(fileno(f)); fclose(f);
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    return fopencookie(new Ck{fd, w, 0}, m, io);
}
int __wrap_rename(const char *a, const char *b) {
    if (!F.on) return __real_rename(a, b);
    if (dying()) _exit(42);
    if (F.ren) { F.fired = true; errno = EIO; return -1; }
    int r = __real_rename(a, b); if (dying()) _exit(42); return r;
}
}
static void arm(const std::string &f, long in, long out) {
    clear_faults(); if (f == "none") return;
    F.on = true;
    if (f == "rd0") F.rd = 0; else if (f == "rdmid") F.rd = in / 2; else if (f == "rdend") F.rd = in;
    else if (f == "wr0") F.wr = 0; else if (f == "wrmid") F.wr = out / 2; else if (f == "wrend") F.wr = out > 0 ? out - 1 : 0;
    else if (f == "once0") { F.wr = 0; F.once = true; } else if (f == "once") { F.wr = out > 0 ? out / 2 : 0; F.once = true; } else if (f == "onceend") { F.wr = out > 0 ? out - 1 : 0; F.once = true; }
    else if (f == "close") F.close_w = 1; else if (f == "rename") F.ren = 1;
    else die("file fault " + f);
}
// ---- the directory ----------------------------------------------------------------------------------------------
CMD("f_write", 3) { auto *b = buf(a[2]); spit(P(a[1]), b ? std::string((char *)b->bytes, b->length) : ""); o.b("r", true); }
CMD("f_read", 3) { std::string s; bool r = slurp(P(a[2]), s); put(a[1], r && !s.empty() ? wickr_buffer_create((const uint8_t *)s.data(), s.size()) : nullptr); o.b("r", r).i("len", s.size()); }
CMD("f_rm", 2) { std::error_code e; fs::remove_all(P(a[1]), e); o.b("r", true); }
CMD("f_mkdir", 2) { std::error_code e; fs::create_directory(P(a[1]), e); spit(P(a[1]) + "/kept", "kept"); o.b("r", true); }
// f_ls <names>: content of each, and whether there is anything else
CMD("f_ls", 1) {
    P("x"); std::string k = "{"; size_t known = 0; bool kept = true;
    for (size_t i = 1; i < a.size(); i++) {
        std::string p = P(a[i]), s; int t = 0; struct stat st;
        if (!lstat(p.c_str(), &st)) {
            if (S_ISDIR(st.st_mode)) { t = tok("<directory>", 11); kept = kept && slurp(p + "/kept", s) && s == "kept" && ++known; }
            else if (S_ISREG(st.st_mode)) { if (!slurp(p, s)) die("unreadable " + p); t = tok(s.data(), s.size()); }
            else t = tok("<other>", 7);
            known++;
        }
        k += (i > 1 ? ",\"" : "\"") + a[i] + "\":" + std::to_string(t);
    }
    size_t all = 0; std::string who; std::error_code e; for (auto &x : fs::recursive_directory_iterator(dir, e)) { all++; who += x.path().filename().string() + " "; }
    o.i("dir", tok("<directory>", 11)).raw("files", k + "}").i("extra", (long long)all - (long long)known).b("kept", kept).str("names", who);
}
// f_op enc|dec|menc|mdec <key> <src> <dst> <auth> <fault>
static bool run_op(const Args &a, const std::string &s, const std::string &d) {
    auto *k = get<wickr_cipher_key_t>(a[2]); const char *ps = s.empty() ? nullptr : s.c_str(), *pd = d.empty() ? nullptr : d.c_str();
    if (a[1] == "enc") return ENG.wickr_crypto_engine_encrypt_file(k, ps, pd);
    return ENG.wickr_crypto_engine_decrypt_file(k, ps, pd, a[5] != "0");
}
static bool mem_op(bool enc, const wickr_cipher_key_t *k, const std::string &in, bool auth, std::string &out) {
    wickr_buffer_t *b = in.empty() ? nullptr : wickr_buffer_create((const uint8_t *)in.data(), in.size()), *r = nullptr;
    wickr_cipher_result_t *c = nullptr;
    if (b && k) {
        if (enc) { c = openssl_aes256_encrypt(b, nullptr, k, nullptr); r = c ? wickr_cipher_result_serialize(c) : nullptr; }
        else { c = wickr_cipher_result_from_buffer(b); r = c ? openssl_aes256_decrypt(c, nullptr, k, auth) : nullptr; }
    }
    if (r) out.assign((char *)r->bytes, r->length);
    bool ok = r != nullptr; wickr_buffer_destroy(&b); wickr_buffer_destroy(&r); wickr_cipher_result_destroy(&c); return ok;
}
CMD("f_op", 7) {
    std::string s = P(a[3]), d = P(a[4]), in, old, out; bool have = slurp(s, in), had = slurp(d, old), enc = a[1] == "enc" || a[1] == "menc";
    auto *k = get<wickr_cipher_key_t>(a[2]); long hdr = k ? 1 + k->cipher.iv_len + k->cipher.auth_tag_len : 0;
    if (a[1][0] == 'm') { bool r = have && mem_op(enc, k, in, a[5] != "0", out); if (r) spit(d, out); o.b("r", r).b("fired", false); return; }
    arm(a[6], in.size(), enc ? hdr + (long)in.size() : (long)in.size() - hdr);
    bool r = run_op(a, s, d), fired = F.fired, armed = F.on; F.on = false;
    // a fault that the operation does not run into (it may do its input and output in another way) shows nothing
    if (armed && !fired && r) { if (had) spit(d, old); else unlink(d.c_str()); r = false; }
    std::string now; bool has = slurp(d, now); fault_at = 0;
    o.b("r", r).b("fired", fired).b("left", has != had || now != old);
}
// f_crash <enc|dec> <key> <src> <dst> <auth> <permille>: dies at that part of its operations.  Afterwards the destination is as before
// or complete; everything is put back.
CMD("f_crash", 7) {
    std::string s = P(a[3]), d = P(a[4]), in, old, now; bool have = slurp(s, in), had = slurp(d, old);
    std::map<std::string, int> before; { std::error_code e; for (auto &x : fs::directory_iterator(dir, e)) before[x.path().string()] = 1; }
    auto child = [&](long at, long *ops) { int pp[2]; if (pipe(pp)) die("pipe"); fflush(stdout); pid_t c = fork();
        if (!c) { clear_faults(); F.on = true; F.crash = at; bool r = run_op(a, s, d); long n = F.ops; if (write(pp[1], &n, sizeof n) < 0) _exit(9); _exit(r ? 0 : 1); }
        close(pp[1]); if (read(pp[0], ops, sizeof *ops) < (ssize_t)sizeof *ops) *ops = -1; close(pp[0]); int st; waitpid(c, &st, 0); return st; };
    auto back = [&] { std::error_code e; std::vector<std::string> v; for (auto &x : fs::directory_iterator(dir, e)) if (!x.is_directory() && x.path().string() != s && x.path().string() != d && !before.count(x.path().string())) v.push_back(x.path().string());
        for (auto &x : v) unlink(x.c_str()); if (s != d) spit(s, in); if (had) spit(d, old); else unlink(d.c_str()); };
    long total = 0; child(0, &total); back();
    long at = total <= 0 || num(a[6]) > 1000 ? 0 : 1 + (total - 1) * num(a[6]) / 1000, z; int st = child(at, &z);
    bool has = slurp(d, now), whole = WIFEXITED(st) && (had ? has && now == old : !has);
    if (!whole && has && have) {
        std::string x; auto *k = get<wickr_cipher_key_t>(a[2]);
        if (a[1] == "enc") whole = in.empty() ? now.size() == 1u + k->cipher.iv_len + k->cipher.auth_tag_len : mem_op(false, k, now, false, x) && x == in;
        else whole = now.size() == in.size() - (1u + k->cipher.iv_len + k->cipher.auth_tag_len) && (now.empty() || (mem_op(false, k, in, false, x) && x == now));
    }
    bool src = s == d; if (!src) { std::string q; src = slurp(s, q) == have && q == in; }
    o.b("whole", whole).b("src", src).i("ops", total); back();
}
// fmut <dst> <encrypted file> <way> <random> <mask>
CMD("fmut", 6) {
    auto *s = buf(a[2]); if (!s) die("fmut"); std::string v((char *)s->bytes, s->length); unsigned long long n = unum(a[4]); char m = (char)num(a[5]); const std::string &w = a[3];
    bool g = v[0] == 0; size_t iv = g ? 12 : 16, tg = g ? 16 : 0, h = 1 + iv + tg; if (v.size() < h) die("fmut size"); size_t ct = v.size() - h;
    auto at = [&](size_t k) { switch (n % 4) { case 0: return (size_t)0; case 1: return k - 1; case 2: return k > 4096 ? (size_t)4096 : k / 2; } return (size_t)(n / 4 % k); };
    if (w == "mode") v[0] = g ? 1 : 0; else if (w == "badmode") v[0] = (char)(2 + n % 254); else if (w == "iv") v[1 + at(iv)] ^= m; else if (w == "tag") v[1 + iv + at(tg)] ^= m;
    else if (w == "zerotag") v.replace(1 + iv, tg, std::string(tg, '\0')); else if (w == "ct") v[h + at(ct)] ^= m; else if (w == "ext") v.append(n % 2 ? 16 : 1 + n % 5000, m);
    else if (w == "cutlast") v.resize(v.size() - 1); else if (w == "cutall") v.resize(h); else if (w == "cuthdr") v.resize(n % 2 ? h - 1 : 1 + n % (h - 1)); else if (w == "empty") v.clear(); else die("fmut " + w);
    o.b("r", true); put(a[1], v.empty() ? nullptr : wickr_buffer_create((const uint8_t *)v.data(), v.size()));
}
