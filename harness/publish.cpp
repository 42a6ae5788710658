// What published bytes show of what the devices know.
#include "sut.hpp"
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
extern "C" {
#include "private/transport_priv.h"
#include "private/transport_handshake_priv.h"
#include "private/storage_priv.h"
#include "message.pb-c.h"
}
// ---- atoms: (class, owner) and the byte strings that give one away ------------------------------------------------
struct Atom { std::string cls; int bit; std::vector<std::string> forms; };
static std::vector<Atom> atoms;
static OnReset oat([] { atoms.clear(); });
static const char *classes[] = {"root", "rid", "rootp", "node", "nid", "nodep", "eph", "ephp", "local", "ns", "rs", "rec", "sys", "dev", "hk", "pass", "sk"};
static void form(Atom &t, const std::string &s) {
    if (s.size() < 8) return;
    t.forms.push_back(s);
    static const char *hx = "0123456789abcdef", *HX = "0123456789ABCDEF"; std::string l, u;
    for (unsigned char c : s) { l += hx[c >> 4]; l += hx[c & 15]; u += HX[c >> 4]; u += HX[c & 15]; }
    t.forms.push_back(l); t.forms.push_back(u);
    for (size_t k = 0; k < 3; k++) {            // base64, wherever the string starts in it
        size_t n = (s.size() - k) / 3 * 3; if (n < 6) continue;
        std::string o(n / 3 * 4 + 4, 0); EVP_EncodeBlock((unsigned char *)&o[0], (const unsigned char *)s.data() + k, n); o.resize(n / 3 * 4); t.forms.push_back(o);
    }
    for (size_t k = 0; k < 5; k++) {            // base32
        size_t n = (s.size() - k) / 5 * 5; if (n < 5) continue;
        auto *b = wickr_buffer_create((const uint8_t *)s.data() + k, n), *e = base32_encode(b);
        if (e) { std::string o((char *)e->bytes, e->length); o.resize(n / 5 * 8); t.forms.push_back(o); }
        wickr_buffer_destroy(&b); wickr_buffer_destroy(&e);
    }
}
// any 16 consecutive bytes at a multiple of 16 from its start or from its end count as seen (short ones: all of it)
static void atom(const char *cls, int bit, const std::string &s) {
    Atom t{cls, bit, {}};
    if (s.size() < 24) form(t, s);
    else { for (size_t i = 0; i + 16 <= s.size(); i += 16) form(t, s.substr(i, 16)); form(t, s.substr(s.size() - 16)); }
    atoms.push_back(t);
}
static void atom(const char *cls, int bit, const wickr_buffer_t *b) { if (b) atom(cls, bit, std::string((char *)b->bytes, b->length)); }
// public points: after the tag byte, first coordinate only (both compressions have it); private keys: the scalar
static void apoint(const char *cls, int bit, const wickr_ec_key_t *k) { auto *b = k->pub_data; atom(cls, bit, std::string((char *)b->bytes + 3, 64)); }
static void ascalar(const char *cls, int bit, const wickr_ec_key_t *k) {
    if (!k->pri_data) die("no private key to watch");
    const uint8_t *p = k->pri_data->bytes; EC_KEY *e = d2i_ECPrivateKey(nullptr, &p, k->pri_data->length); if (!e) die("private key does not parse");
    uint8_t s[66]; if (BN_bn2binpad(EC_KEY_get0_private_key(e), s, 66) != 66) die("scalar"); EC_KEY_free(e);
    atom(cls, bit, std::string((char *)s + 2, 64));
}
static int see(const std::string &cls, const std::string &hay) {
    int m = 0;
    for (auto &t : atoms) if (t.cls == cls) for (auto &f : t.forms) if (hay.size() >= f.size() && memmem(hay.data(), hay.size(), f.data(), f.size())) { m |= 1 << (t.bit - 1); break; }
    return m;
}
static void seeout(const std::string &hay, Out &o) {
    std::string s = "{";
    for (auto c : classes) { if (s.size() > 1) s += ","; s += std::string("\"") + c + "\":" + std::to_string(see(c, hay)); }
    o.raw("see", s + "}");
}
static void seeout(const wickr_buffer_t *b, Out &o) { o.b("r", b); if (b) seeout(std::string((char *)b->bytes, b->length), o); }
static wickr_ctx_gen_result_t *gen(const std::string &n) { return get<wickr_ctx_gen_result_t>(n); }
// at_ctx <ctx> <account> <device>
CMD("at_ctx", 4) {
    auto *g = gen(a[1]); int ac = num(a[2]), dv = num(a[3]); auto *c = g->ctx; auto *h = c->id_chain;
    apoint("root", ac, h->root->sig_key); ascalar("rootp", ac, h->root->sig_key); atom("rid", ac, h->root->identifier);
    apoint("node", dv, h->node->sig_key); ascalar("nodep", dv, h->node->sig_key); atom("nid", dv, h->node->identifier);
    atom("local", dv, c->storage_keys->local->key_data); atom("rs", ac, c->storage_keys->remote->key_data); atom("ns", ac, g->root_keys->node_storage_root->key_data);
    atom("rec", dv, g->recovery_key->key_data); atom("sys", dv, c->dev_info->system_salt); atom("dev", dv, c->dev_info->msg_proto_id); atom("hk", dv, c->packet_header_key->key_data);
    o.b("r", g->root_keys->node_signature_root->pri_data && wickr_buffer_is_equal(g->root_keys->node_signature_root->pub_data, h->root->sig_key->pub_data, nullptr));
}
CMD("at_eph", 3) { auto *k = get<wickr_ephemeral_keypair_t>(a[1]); apoint("eph", num(a[2]), k->ec_key); ascalar("ephp", num(a[2]), k->ec_key); o.b("r", true); }
CMD("at_pass", 3) { atom("pass", num(a[2]), buf(a[1])); o.b("r", true); }
CMD("at_see", 2) { seeout(buf(a[1]), o); }
// ---- objects: their own type here, since which it is decides everything --------------------------------------------
struct Ob { std::string f; wickr_identity_t *i = nullptr; wickr_identity_chain_t *c = nullptr; wickr_node_t *n = nullptr; wickr_ephemeral_keypair_t *e = nullptr; };
static void ob_free(Ob **x) { if (*x) { wickr_identity_destroy(&(*x)->i); wickr_identity_chain_destroy(&(*x)->c); wickr_node_destroy(&(*x)->n); wickr_ephemeral_keypair_destroy(&(*x)->e); delete *x; *x = nullptr; } }
static RegType<Ob> rt_ob(ob_free);
static Ob *fix(Ob *x) { if (x && !x->i && !x->c && !x->n && !x->e) { delete x; return nullptr; } return x; }
static void has(const Ob *x, Out &o) {
    o.b("r", x); if (!x) return;
    auto *c = x->n ? x->n->id_chain : x->c; auto *e = x->n ? x->n->ephemeral_keypair : x->e;
    auto *r = c ? c->root : x->f == "root" ? x->i : nullptr; auto *n = c ? c->node : x->f == "nodeid" ? x->i : nullptr;
    o.b("root", r && r->sig_key->pri_data).b("node", n && n->sig_key->pri_data).b("eph", e && e->ec_key->pri_data);
}
// ob_take <dst> <form> <ctx> <key pair|->
CMD("pb_take", 5) {
    auto *c = gen(a[3])->ctx; auto *k = get<wickr_ephemeral_keypair_t>(a[4]); Ob *x = new Ob{a[2]};
    if (a[2] == "root") x->i = wickr_identity_copy(c->id_chain->root); else if (a[2] == "nodeid") x->i = wickr_identity_copy(c->id_chain->node);
    else if (a[2] == "chain") x->c = wickr_identity_chain_copy(c->id_chain); else if (a[2] == "eph") x->e = wickr_ephemeral_keypair_copy(k);
    else x->n = wickr_node_create(wickr_buffer_copy(c->dev_info->msg_proto_id), wickr_identity_chain_copy(c->id_chain), k ? wickr_ephemeral_keypair_copy(k) : nullptr);
    x = fix(x); has(x, o); put(a[1], x);
}
CMD("pb_copy", 3) {
    auto *s = get<Ob>(a[2]); Ob *x = new Ob{s->f};
    if (s->i) x->i = wickr_identity_copy(s->i); if (s->c) x->c = wickr_identity_chain_copy(s->c); if (s->n) x->n = wickr_node_copy(s->n); if (s->e) x->e = wickr_ephemeral_keypair_copy(s->e);
    x = fix(x); has(x, o); put(a[1], x);
}
CMD("pb_erase", 3) {
    auto *x = get<Ob>(a[1]); auto *c = x->n ? x->n->id_chain : x->c;
    if (a[2] == "eph") wickr_ephemeral_keypair_make_public(x->n ? x->n->ephemeral_keypair : x->e);
    else { auto *i = c ? a[2] == "root" ? c->root : c->node : x->i; wickr_buffer_destroy_zero(&i->sig_key->pri_data); }
    has(x, o);
}
CMD("pb_rotate", 4) { auto *x = get<Ob>(a[1]); auto *k = get<wickr_ephemeral_keypair_t>(a[2]); bool cp = num(a[3]); if (!cp) k = wickr_ephemeral_keypair_copy(k); if (!wickr_node_rotate_keypair(x->n, k, cp)) die("rotate"); has(x, o); }
// pb_pub <dst> <object> pub|pri
CMD("pb_pub", 4) {
    auto *x = get<Ob>(a[2]);
    auto *b = x->i ? wickr_identity_serialize(x->i) : x->c ? a[3] == "pri" ? wickr_identity_chain_serialize_private(x->c) : wickr_identity_chain_serialize(x->c) : x->n ? wickr_node_serialize(x->n) : wickr_ephemeral_keypair_serialize(x->e);
    seeout(b, o); put(a[1], b);
}
CMD("pb_read", 4) {
    auto *b = buf(a[3]); Ob *x = new Ob{a[2]};
    if (a[2] == "root" || a[2] == "nodeid") x->i = wickr_identity_create_from_buffer(b, &ENG); else if (a[2] == "chain") x->c = wickr_identity_chain_create_from_buffer(b, &ENG);
    else if (a[2] == "node") x->n = wickr_node_create_from_buffer(b, &ENG); else x->e = wickr_ephemeral_keypair_create_from_buffer(b, &ENG);
    x = fix(x); has(x, o); put(a[1], x);
}
static std::string str(const wickr_buffer_t *b) { return b ? std::string((char *)b->bytes, b->length) : ""; }
CMD("pb_print", 4) {
    auto *x = get<Ob>(a[2])->i, *y = get<Ob>(a[3])->i; std::string all; bool ok = false;
    wickr_fingerprint_t *fs[] = {wickr_identity_get_fingerprint(x, ENG), wickr_identity_get_bilateral_fingerprint(x, y, ENG)};
    for (auto *f : fs) {
        if (!f) continue;   // of an identity with itself there is none
        ok |= f == fs[0];
        all += str(f->data);
        for (int m = 0; m < 2; m++) for (auto *t : {wickr_fingerprint_get_b32(f, (wickr_fingerprint_output)m), wickr_fingerprint_get_hex(f, (wickr_fingerprint_output)m)}) { all += "|" + str(t); wickr_buffer_destroy(&t); }
        wickr_fingerprint_destroy(&f);
    }
    auto *b = mkbuf(all); o.b("r", ok); if (ok) seeout(all, o); put(a[1], b);
}
CMD("pb_sign", 4) { auto *s = wickr_identity_sign(get<Ob>(a[2])->i, &ENG, buf(a[3])); auto *b = wickr_ecdsa_result_serialize(s); wickr_ecdsa_result_destroy(&s); seeout(b, o); put(a[1], b); }
CMD("pb_raw", 4) {    // unprotected forms
    auto *g = gen(a[2]); wickr_buffer_t *b = nullptr;
    if (a[3] == "ctxclear") b = wickr_ctx_serialize(g->ctx); else if (a[3] == "rkclear") b = wickr_root_keys_serialize(g->root_keys); else if (a[3] == "skclear") b = wickr_storage_keys_serialize(g->ctx->storage_keys);
    else { wickr_buffer_t *p[] = {g->ctx->dev_info->msg_proto_id, g->ctx->dev_info->srv_comm_id}; b = wickr_buffer_concat_multi(p, 2); }
    seeout(b, o); put(a[1], b);
}
CMD("pb_nodeof", 3) { auto *x = get<Ob>(a[2]); o.b("r", put(a[1], wickr_node_copy(x->n))); }
// ---- opening -------------------------------------------------------------------------------------------------------
// pb_open exp <buf> <pass buf> | cip <buf> <rec|local|rs> <ctx> | pkt <buf> <ctx>
CMD("pb_open", 4) {
    wickr_buffer_t *b = nullptr, *src = buf(a[2]), *h = nullptr;
    if (a[1] == "exp") b = wickr_crypto_engine_kdf_decipher(&ENG, src, buf(a[3]));
    else {
        const wickr_cipher_key_t *k; wickr_cipher_result_t *c;
        if (a[1] == "cip") { auto *g = gen(a[4]); k = a[3] == "rec" ? g->recovery_key : a[3] == "local" ? g->ctx->storage_keys->local : g->ctx->storage_keys->remote; c = wickr_cipher_result_from_buffer(src); }
        else {
            auto *p = wickr_packet_create_from_buffer(src); if (!p) die("pb_open: packet");
            auto *q = wickr__proto__packet__unpack(nullptr, p->content->length, p->content->bytes); wickr_packet_destroy(&p); if (!q) die("pb_open: packet");
            h = wickr_buffer_create(q->enc_header.data, q->enc_header.len); wickr__proto__packet__free_unpacked(q, nullptr);
            k = gen(a[3])->ctx->packet_header_key; c = wickr_cipher_result_from_buffer(h);
        }
        b = ENG.wickr_crypto_engine_cipher_decrypt(c, nullptr, k, true);
        wickr_cipher_result_destroy(&c); wickr_buffer_destroy(&h);
    }
    seeout(b, o); wickr_buffer_destroy_zero(&b);
}
// ---- transport sessions ----------------------------------------------------------------------------------------------
struct Side { wickr_transport_ctx_t *c = nullptr; std::vector<wickr_buffer_t *> out; int got = 0; };
static Side *side(const wickr_transport_ctx_t *c) { return (Side *)wickr_transport_ctx_get_user_ctx(c); }
static void s_tx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { if (d) side(c)->out.push_back(d); }
static void s_rx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) { side(c)->got++; wickr_buffer_destroy(&d); }
static void s_st(const wickr_transport_ctx_t *, wickr_transport_status) {}
static void s_ver(const wickr_transport_ctx_t *c, wickr_identity_chain_t *i, wickr_transport_validate_identity_callback done) { wickr_identity_chain_destroy(&i); done(c, true); }
static void keys(wickr_stream_ctx_t *s) { if (s) { atom("sk", 1, s->key->cipher_key->key_data); atom("sk", 1, s->key->evolution_key); } }
// pb_session <dst> <initiator> <responder> <pin: 0|1> <messages>: everything both ever sent, one after the other
CMD("pb_session", 6) {
    Side A, B; auto *ca = gen(a[2])->ctx->id_chain, *cb = gen(a[3])->ctx->id_chain; std::string all; const uint32_t evo = 4;
    wickr_transport_callbacks_t f = {s_tx, s_rx, s_st, s_ver};
    A.c = wickr_transport_ctx_create(ENG, wickr_identity_chain_copy(ca), num(a[4]) ? wickr_identity_chain_copy(cb) : nullptr, evo, f, &A);
    B.c = wickr_transport_ctx_create(ENG, wickr_identity_chain_copy(cb), nullptr, evo, f, &B);
    auto pump = [&] { while (A.out.size() + B.out.size()) for (Side *s : {&A, &B}) { auto out = s->out; s->out.clear(); for (auto *p : out) { all += str(p); wickr_transport_ctx_process_rx_buffer(s == &A ? B.c : A.c, p); wickr_buffer_destroy(&p); } } };
    wickr_transport_ctx_start(A.c);
    if (A.c->pending_handshake && A.c->pending_handshake->local_ephemeral_key) ascalar("sk", 2, A.c->pending_handshake->local_ephemeral_key);
    pump();
    auto *m = openssl_crypto_random(40);
    for (int i = 0, n = num(a[5]); i < n; i++) { keys(A.c->tx_stream); keys(B.c->tx_stream); if (i % 3) wickr_transport_ctx_process_tx_buffer(A.c, m); else wickr_transport_ctx_process_tx_buffer(B.c, m); pump(); }
    keys(A.c->tx_stream); keys(A.c->rx_stream); wickr_buffer_destroy(&m);
    bool ok = wickr_transport_ctx_get_status(A.c) == TRANSPORT_STATUS_ACTIVE && wickr_transport_ctx_get_status(B.c) == TRANSPORT_STATUS_ACTIVE && A.got + B.got == num(a[5]);
    wickr_transport_ctx_destroy(&A.c); wickr_transport_ctx_destroy(&B.c);
    o.b("r", ok); if (ok) seeout(all, o); auto *b = mkbuf(all); put(a[1], b);
}
