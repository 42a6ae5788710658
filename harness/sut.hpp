// Conformance driver: executes the abstract operations of the TLA+ specifications on the real library.
// One command per line on stdin, one JSON object per line on stdout.  Objects live in named slots.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <typeinfo>
extern "C" {
#include "wickr-crypto-c.h"
#include "openssl_suite.h"
#include "openssl_file_suite.h"
#include "stream_iv.h"
#include "b32.h"
#include "util.h"
#include "memory.h"
}
typedef std::vector<std::string> Args;

extern long fault_at, fault_calls; extern bool fault_fired;
struct Out {
    std::string s;
    bool first = true;
    void key(const char *k) { if (first) fault_at = 0; else s += ","; first = false; s += "\""; s += k; s += "\":"; }
    Out &i(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
    Out &u(const char *k, unsigned long long v) { key(k); s += std::to_string(v); return *this; }
    Out &b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    Out &str(const char *k, const std::string &v);
    Out &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
};

// ---- slots -----------------------------------------------------------------------------------
struct Slot { const char *type; void *p; };
extern std::map<std::string, Slot> slots;
[[noreturn]] void die(const std::string &m);      // harness misuse: exit code 3
template <class T> struct TypeName { static const char *n() { return typeid(T *).name(); } };
template <class T> T *get(const std::string &n) {
    if (n == "-") return nullptr;
    auto it = slots.find(n);
    if (it == slots.end()) return nullptr;
    if (strcmp(it->second.type, TypeName<T>::n())) die("slot " + n + " has another type");
    return (T *)it->second.p;
}
void drop(const std::string &n);                   // frees the object through the library
template <class T> bool put(const std::string &n, T *p) {
    drop(n);
    if (p) slots[n] = Slot{TypeName<T>::n(), (void *)p};
    return p != nullptr;
}
template <class T> T *take(const std::string &n) { T *p = get<T>(n); if (p) slots.erase(n); return p; }
void forget(const std::string &n);

typedef std::function<void(const Args &, Out &)> Handler;
void reg(const char *name, int nargs_min, Handler h);
struct Reg { Reg(const char *n, int m, Handler h) { reg(n, m, h); } };
#define CMD2(a, b) a##b
#define CMD1(a, b) CMD2(a, b)
#define CMD(name, nmin) static void CMD1(h_, __LINE__)(const Args &a, Out &o); \
    static Reg CMD1(r_, __LINE__)(name, nmin, CMD1(h_, __LINE__)); \
    static void CMD1(h_, __LINE__)(const Args &a, Out &o)

template <class T> void reg_type(std::function<void(T **)> destroy);
std::map<std::string, std::function<void(void *)>> &destroyers();
template <class T> struct RegType { RegType(void (*d)(T **)) {
    destroyers()[TypeName<T>::n()] = [d](void *p) { T *q = (T *)p; d(&q); }; } };

// ---- what is released (erase.cpp) ----
typedef std::function<void(void *, void (*)(const std::string &, const wickr_buffer_t *))> Viewer;
std::map<std::string, Viewer> &viewers();        // by type: every part of an object that is a buffer, by name
void er_secret(const std::string &name, const wickr_buffer_t *b);
void er_begin(); void er_end(Out &o);
// ---- helpers ---------------------------------------------------------------------------------
extern "C" { extern wickr_ec_key_t *preset_key; extern wickr_ecdsa_result_t *preset_sig; }
int tok(const void *p, size_t n);                  // interned content: equal bytes <=> equal token
int btok(const wickr_buffer_t *b);                 // 0 for NULL
wickr_buffer_t *mkbuf(const std::string &s);       // raw text
wickr_buffer_t *mkhex(const std::string &s);
std::string hex(const wickr_buffer_t *b);
long long num(const std::string &s);
unsigned long long unum(const std::string &s);
wickr_cipher_t cipher_of(const std::string &s);    // GCM | CTR
wickr_digest_t digest_of(const std::string &s);    // 256|384|512
wickr_buffer_t *buf(const std::string &slot);      // existing buffer slot or NULL
bool contains(const wickr_buffer_t *hay, const wickr_buffer_t *needle);
// ---- recorded crypto engine --------------------------------------------------------------------
extern wickr_crypto_engine_t ENG;                  // forwards to the default engine; records; injects faults
struct EncEv { int key, iv; size_t len; };
extern std::vector<EncEv> enc_log;
bool rec_ok(void *p);
extern bool record_enc;
extern std::map<std::string, int> pushn;            // counters of push prefixes
std::vector<std::function<void()>> &reset_hooks();
struct OnReset { OnReset(std::function<void()> f) { reset_hooks().push_back(f); } };
