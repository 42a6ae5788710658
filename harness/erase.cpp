// What is released while a command runs is kept as it was at that moment; then everything secret that was
// known before or after the command, or came up in between, is looked for in it.
#include "sut.hpp"
#include <sys/mman.h>
#include <new>
#include <set>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
static const size_t CAP = 512u << 20, MAXN = 1u << 20;
static char *arena; static size_t used; static std::pair<size_t, size_t> *blocks; static size_t nblocks; static bool recording, over; static bool mode;
static thread_local volatile int own;           // the driver's own strings and maps are not the library's doing
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { own = own + 1; free(p); own = own - 1; }
void operator delete(void *p, size_t) noexcept { own = own + 1; free(p); own = own - 1; }
static std::map<std::string, std::set<std::string>> needles;      // content -> names
static void on_malloc(const volatile void *, size_t) {}
static void on_free(const volatile void *p) {
    if (!recording || own || !p) return;
    size_t n = __sanitizer_get_allocated_size(p);
    if (n < 8 || n > MAXN) return;
    if (used + n > CAP || nblocks >= CAP / 64) { over = true; return; }
    memcpy(arena + used, (const void *)p, n); blocks[nblocks++] = {used, n}; used += n;
}
std::map<std::string, Viewer> &viewers() { static auto *m = new std::map<std::string, Viewer>; return *m; }
void er_secret(const std::string &name, const wickr_buffer_t *b) {
    if (!mode || !b || b->length < 12 || b->length > 4096) return;
    needles[std::string((char *)b->bytes, b->length)].insert(name);
}
static void collect() { for (auto &s : slots) { auto v = viewers().find(s.second.type); if (v != viewers().end() && s.second.p) v->second(s.second.p, er_secret); } }
void er_begin() { if (!mode) return; needles.clear(); used = nblocks = 0; over = false; collect(); recording = true; }
void er_end(Out &o) {
    if (!mode) return;
    recording = false; collect();
    std::set<std::string> left;
    for (auto &n : needles) {
        const std::string &x = n.first; size_t z = 0; for (char c : x) z += !c; if (z > x.size() / 2) continue;
        bool pri = false; for (auto &y : n.second) pri = pri || (y.size() > 3 && y.substr(y.size() - 3) == "pri");
        std::string scalar; if (pri && x.size() > 80) { size_t at = 7; while (at < 12 && !x[at]) at++; scalar = x.substr(at, 60); }
        for (size_t i = 0; i < nblocks; i++) {
            const char *p = arena + blocks[i].first; size_t m = blocks[i].second;
            if ((m >= x.size() && memmem(p, m, x.data(), x.size())) || (!scalar.empty() && m >= 60 && memmem(p, m, scalar.data(), 60))) { for (auto &y : n.second) left.insert(y); break; }
        }
    }
    std::string s = "["; for (auto &y : left) s += (s.size() > 1 ? ",\"" : "\"") + y + "\""; s += "]";
    o.raw("left", s); o.i("released", (long long)nblocks); if (over) die("too much released");
    std::set<std::string> held; for (auto &n : needles) for (auto &y : n.second) held.insert(y);
    s = "["; for (auto &y : held) s += (s.size() > 1 ? ",\"" : "\"") + y + "\""; s += "]"; o.raw("held", s);
    needles.clear();
}
CMD("er_mode", 2) {
    if (!arena) { arena = (char *)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); blocks = (std::pair<size_t, size_t> *)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
    mode = a[1] == "on"; recording = false; o.b("r", true);
}
static OnReset er_r([] { mode = false; recording = false; });
