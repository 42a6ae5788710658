#include "sut.hpp"
static RegType<wickr_stream_key_t> rt1(wickr_stream_key_destroy);
static RegType<wickr_cipher_result_t> rt2(wickr_cipher_result_destroy);
static RegType<wickr_stream_ctx_t> rt3(wickr_stream_ctx_destroy);

static void keyout(Out &o, const wickr_stream_ctx_t *c) {
    if (c) o.i("key", btok(c->key->cipher_key->key_data)).i("evo", btok(c->key->evolution_key));
}
// skey <slot> <cipher> <ppe>
CMD("skey", 4) { o.b("r", put(a[1], wickr_stream_key_create_rand(ENG, cipher_of(a[2]), (uint32_t)unum(a[3])))); }
// skey_make <slot> <cipher> <keylen> <evolen> <ppe>: assembled from parts (ownership of the parts on success only)
CMD("skey_make", 6) {
    wickr_buffer_t *kb = openssl_crypto_random(unum(a[3])), *eb = unum(a[4]) ? openssl_crypto_random(unum(a[4])) : nullptr;
    wickr_cipher_key_t *ck = wickr_cipher_key_create(cipher_of(a[2]), kb);
    bool ck_ok = ck != nullptr;
    if (!ck) wickr_buffer_destroy(&kb);
    wickr_stream_key_t *k = wickr_stream_key_create(ck, eb, (uint32_t)unum(a[5]));
    if (!k) { wickr_cipher_key_destroy(&ck); wickr_buffer_destroy(&eb); }
    o.b("ck", ck_ok).b("r", put(a[1], k));
}
CMD("skey_copy", 3) { o.b("r", put(a[1], wickr_stream_key_copy(get<wickr_stream_key_t>(a[2])))); }
CMD("skey_round", 3) {
    wickr_buffer_t *b = wickr_stream_key_serialize(get<wickr_stream_key_t>(a[2]));
    wickr_stream_key_t *k = b ? wickr_stream_key_create_from_buffer(b) : nullptr;
    o.b("ser", b != nullptr).b("r", put(a[1], k));
    wickr_buffer_destroy_zero(&b);
}
CMD("skey_q", 2) { auto *k = get<wickr_stream_key_t>(a[1]); o.b("r", k != nullptr); if (k) o.i("key", btok(k->cipher_key->key_data)).i("evo", btok(k->evolution_key)).u("ppe", k->packets_per_evolution).i("user", btok(k->user_data)).i("cipher", k->cipher_key->cipher.cipher_id); }
// st_new <ctx> <keyslot> <E|D>
CMD("st_new", 4) {
    wickr_stream_key_t *k = wickr_stream_key_copy(get<wickr_stream_key_t>(a[2]));
    wickr_stream_ctx_t *c = wickr_stream_ctx_create(ENG, k, a[3] == "E" ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE);
    if (!c) wickr_stream_key_destroy(&k);
    o.b("r", put(a[1], c)); keyout(o, c);
}
CMD("st_copy", 3) { auto *c = wickr_stream_ctx_copy(get<wickr_stream_ctx_t>(a[2])); o.b("r", put(a[1], c)); keyout(o, c); o.u("last", c ? c->last_seq : 0); }
CMD("st_ref", 2) { o.b("r", wickr_stream_ctx_ref_up(get<wickr_stream_ctx_t>(a[1]))); }
CMD("st_rel", 2) {
    auto *c = get<wickr_stream_ctx_t>(a[1]);
    if (!c) { o.b("r", false); return; }
    wickr_stream_ctx_destroy(&c);
    if (!c) forget(a[1]);
    o.b("r", true).b("alive", c != nullptr);
}
// st_enc <ctx> <outcipher> <data> <aad|-> <seq>
CMD("st_enc", 6) {
    auto *c = get<wickr_stream_ctx_t>(a[1]);
    auto *r = wickr_stream_ctx_encode(c, buf(a[3]), buf(a[4]), unum(a[5]));
    o.b("ok", r != nullptr); keyout(o, c);
    o.i("iv", r ? btok(r->iv) : 0).i("ct", r ? btok(r->cipher_text) : 0).u("last", c->last_seq);
    o.b("clear", r && contains(r->cipher_text, buf(a[3])));
    put(a[2], r);
}
// st_dec <ctx> <cipher> <aad|-> <seq> [tamper]
CMD("st_dec", 5) {
    auto *c = get<wickr_stream_ctx_t>(a[1]);
    wickr_cipher_result_t *x = wickr_cipher_result_copy(get<wickr_cipher_result_t>(a[2]));
    std::string t = a.size() > 5 ? a[5] : "none";
    if (x) {
        if (t == "ct") x->cipher_text->bytes[x->cipher_text->length / 2] ^= 0x40;
        if (t == "tag") x->auth_tag->bytes[15] ^= 1;
        if (t == "iv") x->iv->bytes[0] ^= 0x80;
        if (t == "len") x->cipher_text->length -= 1;
        if (t == "notag") wickr_buffer_destroy(&x->auth_tag);
        if (t == "ext") { wickr_buffer_t z = {1, (uint8_t *)"z"}; wickr_buffer_t *y = wickr_buffer_concat(x->cipher_text, &z); wickr_buffer_destroy(&x->cipher_text); x->cipher_text = y; }
        if (t == "swaptag") { wickr_buffer_t *y = wickr_buffer_create_empty_zero(16); wickr_buffer_destroy(&x->auth_tag); x->auth_tag = y; }
        if (t == "ctr") { x->cipher = CIPHER_AES256_CTR; }
    }
    auto *r = wickr_stream_ctx_decode(c, x, buf(a[3]), unum(a[4]));
    o.b("ok", r != nullptr); keyout(o, c);
    o.i("pt", btok(r)).u("last", c->last_seq);
    wickr_buffer_destroy_zero(&r); wickr_cipher_result_destroy(&x);
}

// st_many <enc> <dec> <first seq> <n>: n packets in a row, each encoded and decoded
#include <set>
CMD("st_many", 5) {
    auto *e = get<wickr_stream_ctx_t>(a[1]), *d = get<wickr_stream_ctx_t>(a[2]);
    unsigned long long s = unum(a[3]), n = unum(a[4]); long long ok = 0, dk = 0, ev = 0; std::set<std::string> seen;
    std::string last;
    auto kb = [](const wickr_stream_ctx_t *c) { return std::string((char *)c->key->cipher_key->key_data->bytes, c->key->cipher_key->key_data->length); };
    last = kb(e);
    for (unsigned long long i = 0; i < n; i++) {
        wickr_buffer_t *m = wickr_buffer_create((const uint8_t *)&i, sizeof i);
        auto *r = wickr_stream_ctx_encode(e, m, nullptr, s + i);
        if (r) {
            ok++;
            std::string k = kb(e);
            if (k != last) { ev++; last = k; }
            seen.insert(k + std::string((char *)r->iv->bytes, r->iv->length));
            auto *p = wickr_stream_ctx_decode(d, r, nullptr, s + i);
            if (p && wickr_buffer_is_equal(p, m, nullptr) && kb(d) == k) dk++;
            wickr_buffer_destroy_zero(&p); wickr_cipher_result_destroy(&r);
        }
        wickr_buffer_destroy_zero(&m);
    }
    o.i("enc", ok).i("dec", dk).i("fresh", seen.size()).i("periods", ev).u("last", e->last_seq).i("key", btok(e->key->cipher_key->key_data));
}
