// Buffers, arrays, text encodings, fingerprints.
#include "sut.hpp"
extern "C" {
#include "array.h"
}
// ---- text encodings: bytes in, bytes out (as lists of numbers) ------------------------------------------
static std::string nums(const wickr_buffer_t *b) {
    std::string s = "["; for (size_t i = 0; b && i < b->length; i++) s += (i ? "," : "") + std::to_string(b->bytes[i]); return s + "]";
}
CMD("tc_enc", 3) {     // <b64|b32|hex> <buf>
    auto *d = buf(a[2]); auto *t = a[1] == "b64" ? getBase64FromData(d) : a[1] == "b32" ? base32_encode(d) : getHexStringFromData(d);
    o.b("r", t).raw("b", nums(t)).b("term", t && t->bytes[t->length] == 0); wickr_buffer_destroy(&t);
}
CMD("tc_dec", 4) {     // <codec> <buf> <exact|term|counted>: the memory ends with the text, with a zero after it, or the zero is counted too
    auto *d = buf(a[2]); size_t n = d->length; auto *m = (uint8_t *)malloc(n + (a[3] == "exact" ? 0 : 1)); memcpy(m, d->bytes, n); if (a[3] != "exact") m[n] = 0;
    wickr_buffer_t v = {n + (a[3] == "counted"), m};
    auto *t = a[1] == "b64" ? getDataFromBase64(&v) : a[1] == "b32" ? base32_decode(&v) : getDataFromHexString(&v);
    o.b("r", t).raw("b", nums(t)).b("sane", !t || (t->length && t->bytes)).b("same", !memcmp(m, d->bytes, n)); free(m); wickr_buffer_destroy(&t);
}
// ---- buffers: a pool ----------------------------------------------------------------------------------
static std::vector<wickr_buffer_t *> pool;
static struct BufReset { BufReset() { reset_hooks().push_back([] { for (auto *&b : pool) wickr_buffer_destroy(&b); pool.clear(); }); } } br;
static wickr_buffer_t *pb(const std::string &s) { size_t i = num(s); if (i > pool.size()) die("pool"); return i ? pool[i - 1] : nullptr; }
static void ball(Out &o) { o.key("all"); o.s += "["; for (size_t i = 0; i < pool.size(); i++) o.s += (i ? "," : "") + nums(pool[i]); o.s += "]"; }
static void bput(wickr_buffer_t *b, Out &o) { o.b("r", b); if (b) pool.push_back(b); ball(o); }
CMD("bp_new", 2) { auto *h = mkhex(a[1]); uint8_t z = 0; bput(wickr_buffer_create(h ? h->bytes : &z, h ? h->length : 0), o); wickr_buffer_destroy(&h); }
CMD("bp_null", 1) { bput(wickr_buffer_create(nullptr, 4), o); }
CMD("bp_zero", 2) { auto *b = wickr_buffer_create_empty_zero(unum(a[1])); if (!b || b->length < 100000) bput(b, o); else { o.b("r", true).str("all", "huge"); wickr_buffer_destroy(&b); } }
CMD("bp_empty", 2) { auto *b = wickr_buffer_create_empty(unum(a[1])); if (b && b->length < 100000) memset(b->bytes, 0, b->length); if (!b || b->length < 100000) bput(b, o); else { o.b("r", true).str("all", "huge"); wickr_buffer_destroy(&b); } }
CMD("bp_copy", 2) { bput(wickr_buffer_copy(pb(a[1])), o); }
CMD("bp_sec", 4) { bput(wickr_buffer_copy_section(pb(a[1]), unum(a[2]), unum(a[3])), o); }
CMD("bp_cat", 3) { bput(wickr_buffer_concat(pb(a[1]), pb(a[2])), o); }
CMD("bp_multi", 2) { std::vector<wickr_buffer_t *> v; for (size_t i = 1; i < a.size(); i++) v.push_back(pb(a[i])); bput(wickr_buffer_concat_multi(v.data(), (uint8_t)v.size()), o); }
CMD("bp_mod", 5) { auto *s = pb(a[2]); o.b("r", wickr_buffer_modify_section(pb(a[1]), s ? s->bytes : nullptr, unum(a[3]), unum(a[4]))); ball(o); }
static int cmp_vol(const volatile void *x, const volatile void *y, size_t n) { auto *p = (const volatile uint8_t *)x, *q = (const volatile uint8_t *)y; int d = 0; while (n--) d |= *p++ ^ *q++; return d; }
static int cmp_ssl(const volatile void *x, const volatile void *y, size_t n) { return ENG.wickr_crypto_engine_digest ? cmp_vol(x, y, n) : 1; }
CMD("bp_eq", 4) { o.b("r", wickr_buffer_is_equal(pb(a[1]), pb(a[2]), a[3] == "mem" ? nullptr : a[3] == "vol" ? cmp_vol : cmp_ssl)); ball(o); }
CMD("bp_drop", 3) { size_t i = num(a[1]) - 1; auto *b = pool[i]; if (a[2] == "1") wickr_buffer_destroy_zero(&b); else wickr_buffer_destroy(&b); o.b("r", b == nullptr); pool.erase(pool.begin() + i); ball(o); }
// a buffer of the greatest size there may be: <start> <len> relative to that size
CMD("bp_huge", 4) {
    size_t m = (size_t)INT32_MAX - sizeof(wickr_buffer_t); auto *b = wickr_buffer_create_empty_zero(m), *over = wickr_buffer_create_empty(m + 1);
    uint8_t w[16] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}; uint8_t one = 9;
    size_t s = m - num(a[1]), l = num(a[2]);
    bool mod = b && wickr_buffer_modify_section(b, w, s, l); auto *c = wickr_buffer_copy_section(b, s, l);
    auto *t = wickr_buffer_create(&one, 1); auto *cat = wickr_buffer_concat(b, t); wickr_buffer_t *v[2] = {b, t}; auto *mul = wickr_buffer_concat_multi(v, 2);
    o.b("r", b).b("over", over).b("cat", cat).b("multi", mul).b("mod", mod).b("sec", c && c->length == l && !memcmp(c->bytes, w, l));
    for (auto *x : {b, over, c, t, cat, mul}) wickr_buffer_destroy(&x);
}
// ---- arrays ----------------------------------------------------------------------------------------------
struct Item { int id, val; bool live; };
static std::vector<Item *> made; static std::vector<wickr_array_t *> arrs; static std::vector<bool> gone; static std::vector<Item *> byid; static long twice, failin;
static Item *mkitem(int v) { auto *i = new Item{0, v, true}; made.push_back(i); return i; }
static void *icopy(void *p) { if (failin && --failin == 0) return nullptr; auto *i = (Item *)p; if (!i->live) twice += 1000; return mkitem(i->val); }
static void ifree(void **p) { auto *i = (Item *)*p; if (!i->live) twice++; i->live = false; *p = nullptr; }
static void areset() { for (auto *&x : arrs) if (x) wickr_array_destroy(&x, false); arrs.clear(); for (auto *i : made) delete i; made.clear(); byid.clear(); twice = failin = 0; }
static struct ArrReset { ArrReset() { reset_hooks().push_back(areset); } } arr_reset;
static int idof(Item *i) { if (!i) return 0; if (!i->id) { byid.push_back(i); i->id = (int)byid.size(); } return i->id; }
static void aall(Out &o) {
    std::string s = "[";
    for (size_t i = 0; i < arrs.size(); i++) {
        s += i ? ",[" : "["; 
        if (!arrs[i]) s += "0"; else for (uint32_t k = 0; k < wickr_array_get_item_count(arrs[i]); k++) s += (k ? "," : "") + std::to_string(idof((Item *)wickr_array_fetch_item(arrs[i], k, false)));
        s += "]";
    }
    long live = 0, lost = 0; for (auto *i : made) { live += i->live; lost += i->live && !i->id; }
    std::string v = "["; for (size_t i = 0; i < byid.size(); i++) v += (i ? "," : "") + std::to_string(byid[i]->live ? byid[i]->val : 0);
    o.raw("all", s + "]").raw("vals", v + "]").i("live", live).i("twice", twice).i("lost", lost);
    failin = 0;
}
static wickr_array_t *ar(const std::string &s) { return arrs.at(num(s) - 1); }
static Item *itm(const std::string &s) { size_t i = num(s); return i ? byid.at(i - 1) : nullptr; }
CMD("ar_item", 2) { idof(mkitem((int)num(a[1]))); o.b("r", true); aall(o); }
CMD("ar_new", 2) { auto *x = wickr_array_new((uint32_t)unum(a[1]), 7, icopy, ifree); o.b("r", x); if (x) { o.u("n", wickr_array_get_item_count(x)); arrs.push_back(x); } aall(o); }
CMD("ar_set", 6) { failin = num(a[5]); o.b("r", wickr_array_set_item(ar(a[1]), (uint32_t)unum(a[2]), itm(a[3]), a[4] == "1")); aall(o); }
CMD("ar_get", 5) { failin = num(a[4]); auto *i = (Item *)wickr_array_fetch_item(ar(a[1]), (uint32_t)unum(a[2]), a[3] == "1"); o.b("r", i); if (i) o.i("x", idof(i)).i("v", i->val); aall(o); }
CMD("ar_copy", 4) { failin = num(a[3]); auto *x = wickr_array_copy(ar(a[1]), a[2] == "1"); failin = 0; o.b("r", x); if (x) { o.u("n", wickr_array_get_item_count(x)); arrs.push_back(x); } aall(o); }
CMD("ar_free", 3) { auto *&x = arrs.at(num(a[1]) - 1); wickr_array_destroy(&x, a[2] == "1"); o.b("r", !x); aall(o); }
CMD("ar_release", 2) { void *p = itm(a[1]); ifree(&p); o.b("r", true); aall(o); }
CMD("ar_change", 3) { itm(a[1])->val = (int)num(a[2]); o.b("r", true); aall(o); }
// ar_big <n> <k>: an array of n places of which only the k-th is filled, and its copies (deep first, then shallow)
CMD("ar_big", 3) {
    uint32_t n = (uint32_t)unum(a[1]), k = (uint32_t)unum(a[2]); auto *x = wickr_array_new(n, 7, icopy, ifree); auto *i = mkitem(5); size_t before = made.size();
    auto at = [&](const wickr_array_t *y, uint32_t q) { return (Item *)wickr_array_fetch_item(y, q, false); };
    auto val = [&](const wickr_array_t *y, uint32_t q) { auto *z = y ? at(y, q) : nullptr; return z ? z->val : 0; };
    auto filled = [&](const wickr_array_t *y) { long c = 0; for (uint32_t q = 0; y && q < n; q++) c += at(y, q) != nullptr; return c; };
    o.b("r", x).b("set", wickr_array_set_item(x, k, i, false)).b("past", wickr_array_set_item(x, n, i, false)).u("n", wickr_array_get_item_count(x)).i("v", val(x, k)).i("filled", filled(x)).i("beyond", val(x, n));
    auto *d = wickr_array_copy(x, true), *s = wickr_array_copy(x, false);
    o.u("dn", d ? wickr_array_get_item_count(d) : 0).i("dv", val(d, k)).i("dfilled", filled(d)).b("own", d && at(d, k) != i).u("sn", s ? wickr_array_get_item_count(s) : 0).b("shared", s && at(s, k) == at(x, k)).i("sfilled", filled(s));
    long t0 = twice; if (s) wickr_array_destroy(&s, false); if (d) wickr_array_destroy(&d, true); if (x) wickr_array_destroy(&x, true);
    long live = 0; for (size_t q = before; q < made.size(); q++) live += made[q]->live;
    if (!i->live) { /* stored, hence released with the array */ } else { void *p = i; ifree(&p); }
    o.i("leftover", live).i("again", twice - t0);
}
// ---- fingerprints ----------------------------------------------------------------------------------------
typedef wickr_fingerprint_t FP;
static RegType<FP> rt_fp(wickr_fingerprint_destroy);
static void fpout(FP *f, Out &o) { o.b("r", f); if (f) o.i("f", btok(f->data)).i("len", f->data->length).str("hex", hex(f->data)); }
CMD("fp_gen", 4) { auto *f = wickr_fingerprint_gen(ENG, get<wickr_ec_key_t>(a[2]), buf(a[3]), (wickr_fingerprint_type)(a.size() > 4 ? num(a[4]) : 0)); fpout(f, o); put(a[1], f); }
CMD("fp_pair", 4) { auto *f = wickr_fingerprint_gen_bilateral(ENG, get<FP>(a[2]), get<FP>(a[3]), (wickr_fingerprint_type)(a.size() > 4 ? num(a[4]) : 0)); fpout(f, o); put(a[1], f); }
CMD("fp_copy", 3) { auto *f = wickr_fingerprint_copy(get<FP>(a[2])); fpout(f, o); put(a[1], f); }
CMD("fp_show", 4) {    // <fp> b32|hex long|short
    auto m = a[3] == "long" ? FINGERPRINT_OUTPUT_LONG : FINGERPRINT_OUTPUT_SHORT; auto *f = get<FP>(a[1]);
    auto *t = a[2] == "b32" ? wickr_fingerprint_get_b32(f, m) : wickr_fingerprint_get_hex(f, m);
    o.b("r", t); if (t) o.str("text", std::string((char *)t->bytes, t->length)).b("term", t->bytes[t->length] == 0).i("len", t->length); wickr_buffer_destroy(&t);
    if (f) o.str("hex", hex(f->data));
}
CMD("fp_pub", 3) { auto *p = wickr_ec_key_get_pubdata_fixed_len(get<wickr_ec_key_t>(a[2])); o.b("r", p).i("len", p ? p->length : 0); put(a[1], p); }
CMD("fp_raw", 3) { auto *d = wickr_buffer_copy(buf(a[2])); auto *f = wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, d); if (!f) wickr_buffer_destroy(&d); fpout(f, o); put(a[1], f); }
// tc_keep <slot> <codec> <buf>: the encoding kept;  tc_edit <slot> <text> ins|set|cut <position> <character>
CMD("tc_keep", 4) { auto *d = buf(a[3]); auto *t = a[2] == "b64" ? getBase64FromData(d) : a[2] == "b32" ? base32_encode(d) : getHexStringFromData(d); auto *c = t ? wickr_buffer_create(t->bytes, t->length) : nullptr; wickr_buffer_destroy(&t); o.b("r", put(a[1], c)); }
// tc_long <codec> <unit> <rest> <n>: n units and a rest as one text, told apart again
CMD("tc_long", 5) {
    auto *u = buf(a[2]), *x = buf(a[3]); size_t n = num(a[4]), g = a[1] == "b64" ? 20 : a[1] == "b32" ? 24 : 30; std::string w;
    for (size_t i = 0; i < n; i++) w.append((char *)u->bytes, u->length);
    w.append((char *)x->bytes, x->length); auto *d = mkbuf(w);
    auto *t = a[1] == "b64" ? getBase64FromData(d) : a[1] == "b32" ? base32_encode(d) : getHexStringFromData(d);
    o.b("r", t); size_t k = 0; while (t && (k + 2) * g <= t->length && k + 1 < n && !memcmp(t->bytes, t->bytes + (k + 1) * g, g)) k++;
    auto *f = t ? wickr_buffer_copy_section(t, 0, g) : nullptr; auto *r = t ? wickr_buffer_copy_section(t, (k + 1) * g, t->length - (k + 1) * g) : nullptr;
    o.i("n", k + 1).raw("u", nums(f)).raw("t", nums(r)); wickr_buffer_destroy(&f); wickr_buffer_destroy(&r);
    auto *e = t ? wickr_buffer_create(t->bytes, t->length) : nullptr; auto *z = a[1] == "b64" ? getDataFromBase64(t) : a[1] == "b32" ? base32_decode(e) : getDataFromHexString(t);
    o.b("back", z && z->length == d->length && !memcmp(z->bytes, d->bytes, d->length));
    for (auto *b : {d, t, e, z}) wickr_buffer_destroy(&b);
}
CMD("tc_edit", 6) {
    auto *s = buf(a[2]); std::string t((char *)s->bytes, s->length); size_t n = t.size(), p = num(a[4]); char ch = (char)num(a[5]);
    if (a[3] == "ins") t.insert(p % (n + 1), 1, ch); else if (a[3] == "set") t[p % n] = ch; else t.resize(p % (n + 1));
    o.b("r", put(a[1], wickr_buffer_create((const uint8_t *)t.data(), t.size())));
}
