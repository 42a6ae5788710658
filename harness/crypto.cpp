// Ciphers, key derivation, key agreement encryption.
#include "sut.hpp"
#include <sys/mman.h>
extern "C" uint64_t vp_last_kdf[4];
extern "C" {
#include "ecdh_cipher_ctx.h"
}
typedef wickr_cipher_result_t CR;
static RegType<wickr_kdf_meta_t> rt_km(wickr_kdf_meta_destroy);
static RegType<wickr_kdf_result_t> rt_kr(wickr_kdf_result_destroy);
static RegType<wickr_ecdh_cipher_ctx_t> rt_eh(wickr_ecdh_cipher_ctx_destroy);
static wickr_buffer_t *dup(const wickr_buffer_t *b) { return b ? wickr_buffer_copy(b) : nullptr; }
// ---- cipher keys ---------------------------------------------------------------------------------
CMD("ck_make", 3) {     // <dst> GCM|CTR [buf]
    wickr_cipher_key_t *k = nullptr;
    if (a.size() > 3) { auto *d = dup(buf(a[3])); k = wickr_cipher_key_create(cipher_of(a[2]), d); if (!k) wickr_buffer_destroy(&d); }
    else k = ENG.wickr_crypto_engine_cipher_key_random(cipher_of(a[2]));
    o.b("r", k); if (k) o.i("k", btok(k->key_data)).i("len", k->key_data->length).i("c", k->cipher.cipher_id);
    put(a[1], k);
}
static void ckout(wickr_cipher_key_t *k, Out &o) { o.b("r", k); if (k) o.i("k", btok(k->key_data)).i("len", k->key_data->length).i("c", k->cipher.cipher_id); }
CMD("ck_ser", 3) { auto *k = get<wickr_cipher_key_t>(a[2]); o.b("r", put(a[1], k ? wickr_cipher_key_serialize(k) : nullptr)); }
CMD("ck_from", 3) { auto *k = wickr_cipher_key_from_buffer(buf(a[2])); ckout(k, o); put(a[1], k); }
CMD("ck_copy", 3) { auto *k = wickr_cipher_key_copy(get<wickr_cipher_key_t>(a[2])); ckout(k, o); put(a[1], k); }
// ---- cipher results --------------------------------------------------------------------------------
static void crout(const CR *c, Out &o) {
    o.b("r", c);
    if (!c) return;
    o.i("iv", btok(c->iv)).i("ct", btok(c->cipher_text)).i("tag", btok(c->auth_tag)).i("c", c->cipher.cipher_id).b("valid", wickr_cipher_result_is_valid(c));
    o.b("shape", c->iv->length == c->cipher.iv_len && (c->auth_tag ? c->auth_tag->length : 0) == c->cipher.auth_tag_len).i("ctlen", c->cipher_text ? c->cipher_text->length : 0);
}
// additional data: a buffer, or huge:<n>, n zero bytes that exist only where they are looked at
static const wickr_buffer_t *aadof(const std::string &n) {
    if (n.compare(0, 5, "huge:")) return buf(n);
    static uint8_t *z; static wickr_buffer_t b; const size_t most = (4ULL << 30) + (1 << 20);
    if (!z) { z = (uint8_t *)mmap(nullptr, most, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) die("mmap"); }
    b.bytes = z; b.length = unum(n.substr(5)); if (b.length > most) die("aad"); return &b;
}
CMD("cr_enc", 5) {     // <dst> <plain> <aad|-> <key> [iv]
    auto *p = buf(a[2]);
    auto *c = ENG.wickr_crypto_engine_cipher_encrypt(p, aadof(a[3]), get<wickr_cipher_key_t>(a[4]), a.size() > 5 ? buf(a[5]) : nullptr);
    crout(c, o); if (c && p) o.b("leak", p->length > 3 && contains(c->cipher_text, p)).b("full", c->cipher_text && c->cipher_text->length == p->length);
    put(a[1], c);
}
CMD("cr_dec", 5) {     // <cr> <aad|-> <key> 0|1
    auto *p = ENG.wickr_crypto_engine_cipher_decrypt(get<CR>(a[1]), aadof(a[2]), get<wickr_cipher_key_t>(a[3]), a[4] == "1");
    o.b("r", p).i("t", btok(p)).i("len", p ? p->length : 0); wickr_buffer_destroy_zero(&p);
}
CMD("cr_ser", 3) { auto *c = get<CR>(a[2]); o.b("r", put(a[1], c ? wickr_cipher_result_serialize(c) : nullptr)); }
CMD("cr_from", 3) { auto *c = wickr_cipher_result_from_buffer(buf(a[2])); crout(c, o); put(a[1], c); }
CMD("cr_copy", 3) { auto *c = wickr_cipher_result_copy(get<CR>(a[2])); crout(c, o); put(a[1], c); }
CMD("cr_mix", 6) {     // <dst> GCM|CTR <cr for iv> <cr for text> <cr for tag>
    auto *i = get<CR>(a[3]), *x = get<CR>(a[4]), *t = get<CR>(a[5]);
    auto *iv = dup(i ? i->iv : nullptr), *ct = dup(x ? x->cipher_text : nullptr), *tg = dup(t ? t->auth_tag : nullptr);
    auto *c = wickr_cipher_result_create(cipher_of(a[2]), iv, ct, tg);
    if (!c) { wickr_buffer_destroy(&iv); wickr_buffer_destroy(&ct); wickr_buffer_destroy(&tg); }
    crout(c, o); put(a[1], c);
}
// storage data as bytes, for contexts
CMD("cxs_dec", 4) {    // <ctx> local|remote <buf>
    auto *c = wickr_cipher_result_from_buffer(buf(a[3]));
    auto it = slots.find(a[1]); wickr_ctx_t *x = nullptr;
    if (it != slots.end()) x = !strcmp(it->second.type, TypeName<wickr_ctx_gen_result_t>::n()) ? ((wickr_ctx_gen_result_t *)it->second.p)->ctx : get<wickr_ctx_t>(a[1]);
    auto *p = a[2] == "local" ? wickr_ctx_decipher_local(x, c) : wickr_ctx_decipher_remote(x, c);
    o.b("r", p).i("t", btok(p)); wickr_buffer_destroy_zero(&p); if (c) wickr_cipher_result_destroy(&c);
}
// ---- key derivation ----------------------------------------------------------------------------------
static wickr_kdf_algo_t kdfof(const std::string &s) {
    if (s == "s17") return KDF_SCRYPT_2_17; if (s == "s18") return KDF_SCRYPT_2_18; if (s == "s19") return KDF_SCRYPT_2_19; if (s == "s20") return KDF_SCRYPT_2_20;
    if (s == "b15") return KDF_BCRYPT_15; if (s == "h256") return KDF_HKDF_SHA256; if (s == "h384") return KDF_HKDF_SHA384; if (s == "h512") return KDF_HKDF_SHA512;
    if (s == "hx") return KDF_HKDF_SHA512_EXPAND;
    die("kdf " + s);
}
static const char *kname(int id) {
    switch (id) { case KDF_ID_SCRYPT_17: return "s17"; case KDF_ID_SCRYPT_18: return "s18"; case KDF_ID_SCRYPT_19: return "s19"; case KDF_ID_SCRYPT_20: return "s20"; case KDF_ID_BCRYPT_15: return "b15";
        case KDF_ID_HKDF_SHA256: return "h256"; case KDF_ID_HKDF_SHA384: return "h384"; case KDF_ID_HKDF_SHA512: return "h512"; case KDF_ID_HKDF_SHA512_EXPAND: return "hx"; default: return "?"; }
}
static void kmout(const wickr_kdf_meta_t *m, Out &o) { o.b("r", m); if (m) o.str("algo", kname(m->algo.kdf_id)).i("salt", btok(m->salt)).i("info", btok(m->info)).i("out", m->algo.output_size); }
static void krout(const wickr_kdf_result_t *k, Out &o) {
    o.b("r", k);
    if (!k) return;
    o.str("algo", kname(k->meta->algo.kdf_id)).i("salt", btok(k->meta->salt)).i("info", btok(k->meta->info)).i("key", btok(k->hash)).i("len", k->hash->length).str("hex", hex(k->hash)).str("salthex", k->meta->salt ? hex(k->meta->salt) : "");
    o.str("cost", std::to_string(vp_last_kdf[0]) + ":" + std::to_string(vp_last_kdf[1]) + ":" + std::to_string(vp_last_kdf[2]) + ":" + std::to_string(vp_last_kdf[3]));
}
static void clearkdf() { for (int i = 0; i < 4; i++) vp_last_kdf[i] = 0; }
CMD("kd_gen", 4) { clearkdf(); auto *k = ENG.wickr_crypto_kdf_gen(kdfof(a[2]), buf(a[3])); krout(k, o); put(a[1], k); }
CMD("kd_meta", 5) {
    auto *s = dup(buf(a[3])), *i = dup(buf(a[4])); auto *m = wickr_kdf_meta_create(kdfof(a[2]), s, i);
    if (!m) { wickr_buffer_destroy(&s); wickr_buffer_destroy(&i); }
    kmout(m, o); put(a[1], m);
}
CMD("kd_expand", 5) {
    wickr_digest_t d = digest_of(a[2]); auto *i = dup(buf(a[3])); auto *m = wickr_kdf_meta_create_hkdf_expand(&d, i, (size_t)unum(a[4]));
    if (!m) wickr_buffer_destroy(&i);
    kmout(m, o); put(a[1], m);
}
CMD("kd_of", 3) { auto *k = get<wickr_kdf_result_t>(a[2]); auto *c = wickr_kdf_result_copy(k); auto *m = c ? wickr_kdf_meta_copy(c->meta) : nullptr; wickr_kdf_result_destroy(&c); kmout(m, o); put(a[1], m); }
CMD("kd_copy", 3) { auto *m = wickr_kdf_meta_copy(get<wickr_kdf_meta_t>(a[2])); kmout(m, o); put(a[1], m); }
CMD("kd_ser", 3) { auto *m = get<wickr_kdf_meta_t>(a[2]); o.b("r", put(a[1], m ? wickr_kdf_meta_serialize(m) : nullptr)); }
CMD("kd_from", 3) { auto *m = wickr_kdf_meta_create_with_buffer(buf(a[2])); kmout(m, o); o.i("size", wickr_kdf_meta_size_with_buffer(buf(a[2]))); put(a[1], m); }
CMD("kd_do", 4) { clearkdf(); auto *k = ENG.wickr_crypto_kdf_meta(get<wickr_kdf_meta_t>(a[2]), buf(a[3])); krout(k, o); put(a[1], k); }
CMD("kd_seal", 6) {    // <dst> <algo> GCM|CTR <value> <pass>
    auto *b = wickr_crypto_engine_kdf_cipher(&ENG, kdfof(a[2]), cipher_of(a[3]), buf(a[4]), buf(a[5]));
    o.b("r", b); if (b && b->length > 45) o.i("salt", tok(b->bytes + 1, 16)).i("iv", tok(b->bytes + 18, 12)).b("leak", contains(b, buf(a[4])) || contains(b, buf(a[5])));
    put(a[1], b);
}
CMD("kd_craft", 6) {   // the same, assembled by hand with no restriction on algorithm or cipher
    auto *k = ENG.wickr_crypto_kdf_gen(kdfof(a[2]), buf(a[5]));
    auto *kb = wickr_buffer_copy_section(k->hash, 0, 32); auto *ck = wickr_cipher_key_create(cipher_of(a[3]), kb);
    auto *c = ENG.wickr_crypto_engine_cipher_encrypt(buf(a[4]), nullptr, ck, nullptr); auto *cb = wickr_cipher_result_serialize(c), *mb = wickr_kdf_meta_serialize(k->meta);
    o.b("r", put(a[1], wickr_buffer_concat(mb, cb)));
    wickr_buffer_destroy(&cb); wickr_buffer_destroy(&mb); wickr_cipher_result_destroy(&c); wickr_cipher_key_destroy(&ck); wickr_kdf_result_destroy(&k);
}
CMD("kd_open", 3) { auto *b = wickr_crypto_engine_kdf_decipher(&ENG, buf(a[1]), buf(a[2])); o.b("r", b).i("t", btok(b)); wickr_buffer_destroy_zero(&b); }
// dg <buf> <salt|-> <256|384|512>
CMD("dg", 4) { auto *d = ENG.wickr_crypto_engine_digest(buf(a[1]), buf(a[2]), digest_of(a[3])); o.b("r", d).i("d", btok(d)).str("hex", d ? hex(d) : ""); wickr_buffer_destroy(&d); }
// ---- key agreement ------------------------------------------------------------------------------------
CMD("ss", 3) { auto *s = ENG.wickr_crypto_engine_gen_shared_secret(get<wickr_ec_key_t>(a[1]), get<wickr_ec_key_t>(a[2])); o.b("r", s).i("ss", btok(s)).i("len", s ? s->length : 0); wickr_buffer_destroy_zero(&s); }
CMD("eh_make", 4) {    // <dst> <key|-> GCM|CTR
    wickr_ecdh_cipher_ctx_t *c;
    if (a[2] == "-") c = wickr_ecdh_cipher_ctx_create(ENG, EC_CURVE_NIST_P521, cipher_of(a[3]));
    else { auto *k = wickr_ec_key_copy(get<wickr_ec_key_t>(a[2])); c = wickr_ecdh_cipher_ctx_create_key(ENG, k, cipher_of(a[3])); if (!c) wickr_ec_key_destroy(&k); }
    o.b("r", put(a[1], c));
}
CMD("eh_copy", 3) { o.b("r", put(a[1], wickr_ecdh_cipher_ctx_copy(get<wickr_ecdh_cipher_ctx_t>(a[2])))); }
CMD("eh_key", 3) { auto *c = get<wickr_ecdh_cipher_ctx_t>(a[2]); o.b("r", put(a[1], c ? wickr_ec_key_copy(c->local_key) : nullptr)); }
CMD("eh_enc", 6) {     // <dst> <ctx> <plain> <peer> <meta>
    auto *c = wickr_ecdh_cipher_ctx_cipher(get<wickr_ecdh_cipher_ctx_t>(a[2]), buf(a[3]), get<wickr_ec_key_t>(a[4]), get<wickr_kdf_meta_t>(a[5]));
    crout(c, o); if (c) o.b("leak", contains(c->cipher_text, buf(a[3])));
    put(a[1], c);
}
CMD("eh_dec", 5) { auto *p = wickr_ecdh_cipher_ctx_decipher(get<wickr_ecdh_cipher_ctx_t>(a[1]), get<CR>(a[2]), get<wickr_ec_key_t>(a[3]), get<wickr_kdf_meta_t>(a[4])); o.b("r", p).i("t", btok(p)); wickr_buffer_destroy_zero(&p); }
// crmut <dst> <serialised cipher result> iv|ct|tag|ext|trunc|noct|other|badid|short <random> <mask>
CMD("crmut", 6) {
    auto *s = buf(a[2]); std::string v((char *)s->bytes, s->length); unsigned long long n = unum(a[4]); char m = (char)num(a[5]); const std::string &w = a[3];
    bool g = v[0] == 0; size_t iv = g ? 12 : 16, tg = g ? 16 : 0, h = 1 + iv + tg, ct = v.size() - h;
    if (w == "iv") v[1 + n % iv] ^= m; else if (w == "tag") v[1 + iv + n % tg] ^= m; else if (w == "ct") v[h + n % ct] ^= m;
    else if (w == "ext") v += m; else if (w == "trunc") v.resize(h + (n % 3 ? ct - 1 : ct - 1 - n % (ct - 1))); else if (w == "noct") v.resize(h);
    else if (w == "other") v[0] = g ? 1 : 0; else if (w == "badid") v[0] = (char)(2 + n % 254); else if (w == "short") v.resize(1 + n % (h - 1)); else die("crmut");
    o.b("r", put(a[1], wickr_buffer_create((const uint8_t *)v.data(), v.size())));
}
// kdmut <dst> <serialised parameters> salt|cost: another valid salt (twice: the same again), or another cost
CMD("kdmut", 4) {
    auto *s = buf(a[2]); std::string v((char *)s->bytes, s->length);
    if (a[3] == "cost") { if (v[0] == KDF_ID_SCRYPT_17) v[0] = KDF_ID_SCRYPT_18; else if (v[0] != KDF_ID_BCRYPT_15) v[0] = KDF_ID_SCRYPT_17; }
    else if (v[0] == KDF_ID_BCRYPT_15) { static const char *al = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"; auto *c = strchr(al, v[1]); if (!v[1] || !c) die("kdmut: salt"); v[1] = al[(c - al) ^ 1]; } else v[5] ^= 0x20;
    o.b("r", put(a[1], wickr_buffer_create((const uint8_t *)v.data(), v.size())));
}
