// Accounts, devices, contexts and message packets.
#include "sut.hpp"
extern "C" {
#include "message.pb-c.h"
#include "storage.pb-c.h"
}
typedef wickr_ctx_t Ctx;
static RegType<wickr_root_keys_t> rt_rk(wickr_root_keys_destroy);
static RegType<wickr_dev_info_t> rt_di(wickr_dev_info_destroy);
static RegType<wickr_ctx_t> rt_cx(wickr_ctx_destroy);
static RegType<wickr_ctx_gen_result_t> rt_cg(wickr_ctx_gen_result_destroy);
static RegType<wickr_storage_keys_t> rt_sk(wickr_storage_keys_destroy);
static RegType<wickr_cipher_key_t> rt_ck(wickr_cipher_key_destroy);
static RegType<wickr_cipher_result_t> rt_cr(wickr_cipher_result_destroy);
static RegType<wickr_packet_t> rt_pk(wickr_packet_destroy);
static RegType<wickr_encoder_result_t> rt_er(wickr_encoder_result_destroy);
static RegType<wickr_ctx_packet_t> rt_cp(wickr_ctx_packet_destroy);
static RegType<wickr_decode_result_t> rt_dr(wickr_decode_result_destroy);
static RegType<wickr_key_exchange_set_t> rt_ks(wickr_key_exchange_set_destroy);
static RegType<wickr_payload_t> rt_pl(wickr_payload_destroy);

static wickr_ctx_t *ctxof(const std::string &n) {
    if (n == "-") return nullptr;
    auto it = slots.find(n);
    if (it != slots.end() && !strcmp(it->second.type, TypeName<wickr_ctx_gen_result_t>::n())) return ((wickr_ctx_gen_result_t *)it->second.p)->ctx;
    return get<wickr_ctx_t>(n);
}
// ---- accounts and devices -----------------------------------------------------------------------
static void rkout(const wickr_root_keys_t *k, Out &o) {
    o.b("r", k != nullptr);
    if (k) o.i("root", btok(k->node_signature_root->pub_data)).i("rpri", btok(k->node_signature_root->pri_data)).i("ns", btok(k->node_storage_root->key_data)).i("rs", btok(k->remote_storage_root->key_data));
}
CMD("rk_gen", 2) { auto *k = wickr_root_keys_generate(&ENG); rkout(k, o); put(a[1], k); }
// no eight bytes of one are found in the other
static bool apart(const wickr_buffer_t *x, const wickr_buffer_t *y) {
    std::string s((char *)y->bytes, y->length);
    for (size_t i = 0; i + 8 <= x->length; i++) if (s.find(std::string((char *)x->bytes + i, 8)) != std::string::npos) return false;
    return true;
}
// di_make <slot> <system id buf> [salt buf]: new, or derived with that salt
CMD("di_make", 3) {
    wickr_dev_info_t *d = nullptr;
    if (a.size() > 3) { wickr_buffer_t *s = wickr_buffer_copy(buf(a[3])); d = wickr_dev_info_derive(&ENG, s, buf(a[2])); if (!d) wickr_buffer_destroy(&s); }
    else d = wickr_dev_info_create_new(&ENG, buf(a[2]));
    o.b("r", d);
    if (d) o.i("msg", btok(d->msg_proto_id)).i("srv", btok(d->srv_comm_id)).i("sys", btok(d->system_salt)).i("salt", btok(d->dev_salt)).i("len", d->msg_proto_id->length * 1000 + d->srv_comm_id->length)
        .b("leak", contains(d->msg_proto_id, d->system_salt) || contains(d->srv_comm_id, d->system_salt) || contains(d->msg_proto_id, buf(a[2])) || contains(d->srv_comm_id, buf(a[2])) ||
            contains(d->msg_proto_id, d->dev_salt) || contains(d->srv_comm_id, d->dev_salt)).b("apart", apart(d->msg_proto_id, d->srv_comm_id));
    put(a[1], d);
}
CMD("di_copy", 3) { auto *d = wickr_dev_info_copy(get<wickr_dev_info_t>(a[2])); o.b("r", d); if (d) o.i("msg", btok(d->msg_proto_id)).i("srv", btok(d->srv_comm_id)).i("sys", btok(d->system_salt)).i("salt", btok(d->dev_salt)); put(a[1], d); }
CMD("di_salt", 3) { auto *d = get<wickr_dev_info_t>(a[2]); o.b("r", put(a[1], d ? wickr_buffer_copy(d->dev_salt) : nullptr)); }

static void cxout(const wickr_ctx_t *c, Out &o) {
    o.b("r", c != nullptr);
    if (!c) return;
    auto *ch = c->id_chain;
    o.i("root", btok(ch->root->sig_key->pub_data)).i("node", btok(ch->node->sig_key->pub_data)).i("nid", btok(ch->node->identifier)).i("rid", btok(ch->root->identifier));
    o.i("rpri", btok(ch->root->sig_key->pri_data)).i("npri", btok(ch->node->sig_key->pri_data));
    o.i("local", btok(c->storage_keys->local->key_data)).i("remote", btok(c->storage_keys->remote->key_data)).i("dev", btok(c->dev_info->msg_proto_id));
    o.b("valid", wickr_identity_chain_validate(ch, &ENG)).i("ver", c->pkt_enc_version).i("hk", btok(c->packet_header_key->key_data));
    o.str("types", std::string(ch->root->type == IDENTITY_TYPE_ROOT ? "r" : "?") + (ch->node->type == IDENTITY_TYPE_NODE ? "n" : "?"));
}
// cx_gen <slot> <root keys> <dev> <account id buf>
CMD("cx_gen", 5) {
    auto *g = wickr_ctx_gen_with_root_keys(ENG, get<wickr_dev_info_t>(a[3]), get<wickr_root_keys_t>(a[2]), buf(a[4]));
    cxout(g ? g->ctx : nullptr, o); put(a[1], g);
}
CMD("cx_show", 2) { cxout(ctxof(a[1]), o); }
CMD("cx_rootkeys", 3) { auto *g = get<wickr_ctx_gen_result_t>(a[2]); o.b("r", put(a[1], g ? wickr_root_keys_copy(g->root_keys) : nullptr)); }
CMD("cx_recoverykey", 3) { auto *g = get<wickr_ctx_gen_result_t>(a[2]); auto *k = g ? wickr_cipher_key_copy(g->recovery_key) : nullptr; o.b("r", k).i("k", k ? btok(k->key_data) : 0); put(a[1], k); }
CMD("cx_new", 4) { auto *g = wickr_ctx_gen_new(ENG, get<wickr_dev_info_t>(a[2]), buf(a[3])); cxout(g ? g->ctx : nullptr, o); put(a[1], g); }
CMD("cx_newsig", 5) { auto *g = wickr_ctx_gen_new_with_sig_key(ENG, get<wickr_dev_info_t>(a[2]), get<wickr_ec_key_t>(a[4]), buf(a[3])); cxout(g ? g->ctx : nullptr, o); put(a[1], g); }
CMD("cx_ser", 3) { o.b("r", put(a[1], wickr_ctx_serialize(ctxof(a[2])))); }
CMD("cx_from", 4) {
    auto *d = wickr_dev_info_copy(get<wickr_dev_info_t>(a[3])); auto *c = wickr_ctx_create_from_buffer(ENG, d, buf(a[2]));
    if (!c) wickr_dev_info_destroy(&d);
    cxout(c, o); put(a[1], c);
}
CMD("cx_copy", 3) { auto *c = wickr_ctx_copy(ctxof(a[2])); cxout(c, o); put(a[1], c); }
CMD("cx_gcopy", 3) { auto *c = wickr_ctx_gen_result_copy(get<wickr_ctx_gen_result_t>(a[2])); cxout(c ? c->ctx : nullptr, o); put(a[1], c); }
CMD("cx_ver", 3) { ctxof(a[1])->pkt_enc_version = (uint8_t)num(a[2]); o.b("r", true); }
CMD("cx_chain", 3) {
    wickr_buffer_t *b = wickr_identity_chain_serialize(ctxof(a[2])->id_chain);
    o.b("r", put(a[1], wickr_identity_chain_create_from_buffer(b, &ENG))); wickr_buffer_destroy(&b);
}
// ---- storage, exports, recovery ---------------------------------------------------------------------
CMD("cx_cipher", 5) {
    auto *c = a[3] == "local" ? wickr_ctx_cipher_local(ctxof(a[2]), buf(a[4])) : wickr_ctx_cipher_remote(ctxof(a[2]), buf(a[4]));
    o.b("r", c); if (c) o.i("iv", btok(c->iv)).i("ct", btok(c->cipher_text)).b("leak", contains(c->cipher_text, buf(a[4]))).b("auth", c->cipher.is_authenticated);
    if (a.size() > 5) { put(a[1], c ? wickr_cipher_result_serialize(c) : nullptr); if (c) wickr_cipher_result_destroy(&c); } else put(a[1], c);
}
CMD("cx_decipher", 4) {
    auto *p = a[2] == "local" ? wickr_ctx_decipher_local(ctxof(a[1]), get<wickr_cipher_result_t>(a[3])) : wickr_ctx_decipher_remote(ctxof(a[1]), get<wickr_cipher_result_t>(a[3]));
    o.b("r", p).i("t", btok(p)); wickr_buffer_destroy_zero(&p);
}
CMD("cx_export", 5) {   // <dst buf> <ctx> ctx|storage|recoverykey <pass>
    wickr_buffer_t *b = a[3] == "ctx" ? wickr_ctx_export(ctxof(a[2]), buf(a[4])) : a[3] == "storage" ? wickr_ctx_export_storage_keys(ctxof(a[2]), buf(a[4]))
        : wickr_ctx_gen_export_recovery_key_passphrase(get<wickr_ctx_gen_result_t>(a[2]), buf(a[4]));
    o.b("r", b);
    if (b && b->length > 45) { o.i("salt", tok(b->bytes + 1, 16)).i("iv", tok(b->bytes + 18, 12)).i("ct", tok(b->bytes + 46, b->length - 46)).i("kdf", b->bytes[0]).i("cipher", b->bytes[17]); }
    put(a[1], b);
}
CMD("cx_import", 5) {   // <dst> <buf> ctx|storage|recoverykey <pass> [dev]
    if (a[3] == "ctx") {
        auto *d = wickr_dev_info_copy(get<wickr_dev_info_t>(a[5])); auto *c = wickr_ctx_import(ENG, d, buf(a[2]), buf(a[4]));
        if (!c) wickr_dev_info_destroy(&d);
        cxout(c, o); put(a[1], c);
    } else if (a[3] == "storage") {
        auto *s = wickr_ctx_import_storage_keys(ENG, buf(a[2]), buf(a[4]));
        o.b("r", s); if (s) o.i("local", btok(s->local->key_data)).i("remote", btok(s->remote->key_data)); put(a[1], s);
    } else {
        auto *k = wickr_ctx_gen_import_recovery_key_passphrase(ENG, buf(a[2]), buf(a[4]));
        o.b("r", k); if (k) o.i("k", btok(k->key_data)); put(a[1], k);
    }
}
CMD("cx_recovery", 3) { auto *b = wickr_ctx_gen_result_make_recovery(get<wickr_ctx_gen_result_t>(a[2])); o.b("r", b); if (b && b->length > 29) o.i("iv", tok(b->bytes + 1, 12)).i("ct", tok(b->bytes + 29, b->length - 29)); put(a[1], b); }
CMD("rk_export", 4) {
    auto *c = wickr_root_keys_export(get<wickr_root_keys_t>(a[2]), &ENG, get<wickr_cipher_key_t>(a[3]));
    o.b("r", c); if (c) o.i("iv", btok(c->iv)).i("ct", btok(c->cipher_text));
    put(a[1], c ? wickr_cipher_result_serialize(c) : nullptr); if (c) wickr_cipher_result_destroy(&c);
}
// rk_later <dst> <recovery> <key> <version>: the root keys in it, written as of another version
CMD("rk_later", 5) {
    auto *k = get<wickr_cipher_key_t>(a[3]); auto *c = wickr_cipher_result_from_buffer(buf(a[2])); auto *p = ENG.wickr_crypto_engine_cipher_decrypt(c, nullptr, k, true);
    auto *m = p ? wickr__proto__root_keys__unpack(nullptr, p->length, p->bytes) : nullptr;
    if (m) {
        m->version = (uint32_t)unum(a[4]); auto *q = wickr_buffer_create_empty(wickr__proto__root_keys__get_packed_size(m)); wickr__proto__root_keys__pack(m, q->bytes);
        auto *e = ENG.wickr_crypto_engine_cipher_encrypt(q, nullptr, k, nullptr); o.b("r", put(a[1], wickr_cipher_result_serialize(e)));
        wickr_cipher_result_destroy(&e); wickr_buffer_destroy(&q); wickr__proto__root_keys__free_unpacked(m, nullptr);
    } else o.b("r", false);
    wickr_buffer_destroy(&p); if (c) wickr_cipher_result_destroy(&c);
}
CMD("rk_show", 2) { rkout(get<wickr_root_keys_t>(a[1]), o); }
CMD("rk_mix", 6) {   // <dst> <rk: signing root> <rk: node storage> <rk: remote storage> <rk: private half of the signing root|->
    auto *s = wickr_ec_key_copy(get<wickr_root_keys_t>(a[2])->node_signature_root);
    if (s->pri_data) wickr_buffer_destroy_zero(&s->pri_data);
    auto *p = a[5] == "-" ? nullptr : get<wickr_root_keys_t>(a[5])->node_signature_root->pri_data;
    if (p) s->pri_data = wickr_buffer_copy(p);
    auto *k = wickr_root_keys_create(s, wickr_cipher_key_copy(get<wickr_root_keys_t>(a[3])->node_storage_root), wickr_cipher_key_copy(get<wickr_root_keys_t>(a[4])->remote_storage_root));
    rkout(k, o); put(a[1], k);
}
CMD("rk_sig", 3) { auto *k = get<wickr_root_keys_t>(a[2]); o.b("r", put(a[1], k ? wickr_ec_key_copy(k->node_signature_root) : nullptr)); }
CMD("rk_ser", 3) { auto *k = get<wickr_root_keys_t>(a[2]); o.b("r", put(a[1], k ? wickr_root_keys_serialize(k) : nullptr)); }
CMD("rk_from", 3) { auto *k = wickr_root_keys_create_from_buffer(&ENG, buf(a[2])); rkout(k, o); put(a[1], k); }
CMD("rk_copy", 3) { auto *k = wickr_root_keys_copy(get<wickr_root_keys_t>(a[2])); rkout(k, o); put(a[1], k); }
CMD("rk_recover", 4) { auto *k = wickr_ctx_gen_import_recovery(ENG, buf(a[2]), get<wickr_cipher_key_t>(a[3])); rkout(k, o); put(a[1], k); }
CMD("cx_recover", 6) { auto *g = wickr_ctx_gen_with_recovery(ENG, get<wickr_dev_info_t>(a[2]), buf(a[3]), get<wickr_cipher_key_t>(a[4]), buf(a[5])); cxout(g ? g->ctx : nullptr, o); o.i("reck", g ? btok(g->recovery_key->key_data) : 0); put(a[1], g); }
CMD("cx_passrec", 7) { auto *g = wickr_ctx_gen_with_passphrase(ENG, get<wickr_dev_info_t>(a[2]), buf(a[3]), buf(a[4]), buf(a[5]), buf(a[6])); cxout(g ? g->ctx : nullptr, o); put(a[1], g); }
// ---- ephemeral keys and recipients -----------------------------------------------------------------
CMD("ek_gen", 4) {
    auto *k = wickr_ctx_ephemeral_keypair_gen(ctxof(a[2]), unum(a[3]));
    o.b("r", k).i("pub", k ? btok(k->ec_key->pub_data) : 0).b("idok", k && k->identifier == unum(a[3]));
    put(a[1], k);
}
CMD("ek_key", 3) { auto *k = get<wickr_ephemeral_keypair_t>(a[2]); o.b("r", put(a[1], k ? wickr_ec_key_copy(k->ec_key) : nullptr)); }
CMD("ek_owner", 3) { o.b("r", wickr_ephemeral_keypair_verify_owner(get<wickr_ephemeral_keypair_t>(a[1]), &ENG, ctxof(a[2])->id_chain->node)); }
// nd_of <slot> <ctx> <keypair|-> <ctx whose device> [root of ctx|+ctx whose root signs it, too]: public node object as a sender would receive it
CMD("nd_of", 5) {
    wickr_buffer_t *b = wickr_identity_chain_serialize(ctxof(a[2])->id_chain);
    auto *c = wickr_identity_chain_create_from_buffer(b, &ENG); wickr_buffer_destroy(&b);
    if (a.size() > 5 && a[5][0] == '+') {
        auto *r = ctxof(a[5].substr(1))->id_chain->root;
        wickr_identity_destroy(&c->root); c->root = wickr_identity_copy(r);
        wickr_ecdsa_result_destroy(&c->node->signature); c->node->signature = wickr_identity_sign(r, &ENG, c->node->sig_key->pub_data);
    } else if (a.size() > 5) { wickr_identity_destroy(&c->root); c->root = wickr_identity_copy(ctxof(a[5])->id_chain->root); }
    wickr_ephemeral_keypair_t *k = nullptr;
    if (a[3] != "-") { auto *x = wickr_ephemeral_keypair_serialize(get<wickr_ephemeral_keypair_t>(a[3])); k = wickr_ephemeral_keypair_create_from_buffer(x, &ENG); wickr_buffer_destroy(&x); }
    o.b("r", put(a[1], wickr_node_create(wickr_buffer_copy(ctxof(a[4])->dev_info->msg_proto_id), c, k)));
}
// nd_stale <node> <keypair|-> <root of ctx|->: verified as it is, then changed
CMD("nd_stale", 4) {
    auto *n = get<wickr_node_t>(a[1]);
    bool ok = wickr_node_verify_signature_chain(n, &ENG);
    if (a[2] != "-") { wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair); auto *x = wickr_ephemeral_keypair_serialize(get<wickr_ephemeral_keypair_t>(a[2])); n->ephemeral_keypair = wickr_ephemeral_keypair_create_from_buffer(x, &ENG); wickr_buffer_destroy(&x); }
    if (a[3] != "-") { wickr_identity_destroy(&n->id_chain->root); n->id_chain->root = wickr_identity_copy(ctxof(a[3])->id_chain->root); }
    o.b("r", ok);
}
// cx_nid <ctx> <buf>: another identifier for its node identity (identifiers are not signed)
CMD("cx_nid", 3) {
    auto *c = ctxof(a[1]); auto *h = wickr_identity_chain_copy(c->id_chain);
    wickr_buffer_destroy(&h->node->identifier); h->node->identifier = wickr_buffer_copy(buf(a[2]));
    o.b("r", put(a[1], wickr_ctx_create(ENG, wickr_dev_info_copy(c->dev_info), h, wickr_storage_keys_copy(c->storage_keys))));
}
// claim <slot> <root key of ctx> <root id of ctx> <node of ctx>: the identity a packet is attributed to
CMD("claim", 5) {
    auto *c = wickr_identity_chain_copy(ctxof(a[4])->id_chain);
    wickr_ec_key_destroy(&c->root->sig_key); c->root->sig_key = wickr_ec_key_copy(ctxof(a[2])->id_chain->root->sig_key);
    wickr_buffer_destroy(&c->root->identifier); c->root->identifier = wickr_buffer_copy(ctxof(a[3])->id_chain->root->identifier);
    wickr_buffer_t *b = wickr_identity_chain_serialize(c); wickr_identity_chain_destroy(&c);
    o.b("r", put(a[1], wickr_identity_chain_create_from_buffer(b, &ENG))); wickr_buffer_destroy(&b);
}
// ---- packets -----------------------------------------------------------------------------------------
// pl_make <slot> <ttl> <bor> <type> <tag buf> <body buf>
CMD("pl_make", 7) {
    wickr_ephemeral_info_t e = {unum(a[2]), unum(a[3])};
    o.b("r", put(a[1], wickr_payload_create(wickr_packet_meta_create(e, wickr_buffer_copy(buf(a[5])), (uint16_t)unum(a[4])), wickr_buffer_copy(buf(a[6])))));
}
static bool unpack(const wickr_packet_t *p, wickr_buffer_t **h, wickr_buffer_t **y) {
    auto *q = wickr__proto__packet__unpack(nullptr, p->content->length, p->content->bytes);
    if (!q) return false;
    *h = wickr_buffer_create(q->enc_header.data, q->enc_header.len); *y = wickr_buffer_create(q->enc_payload.data, q->enc_payload.len);
    wickr__proto__packet__free_unpacked(q, nullptr); return true;
}
// strangers that only make recipient lists long; they outlive a reset
static const uint64_t CROWD = 0xC0FFEE0000000000ULL;
static wickr_node_t *stranger(size_t i) {
    static std::vector<wickr_node_t *> pool;
    while (pool.size() <= i) {
        auto rnd = [](size_t n) { return openssl_crypto_random(n); };
        auto *rn = wickr_buffer_create((const uint8_t *)"crowd", 5);
        auto *root = wickr_identity_create(IDENTITY_TYPE_ROOT, rn, openssl_ec_rand_key(EC_CURVE_NIST_P521), nullptr);
        auto *nk = openssl_ec_rand_key(EC_CURVE_NIST_P521), *ek = openssl_ec_rand_key(EC_CURVE_NIST_P521);
        wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
        auto *nd = wickr_identity_create(IDENTITY_TYPE_NODE, rnd(32), nk, wickr_identity_sign(root, &e, nk->pub_data));
        auto *kp = wickr_ephemeral_keypair_create(CROWD + pool.size(), ek, wickr_identity_sign(nd, &e, ek->pub_data));
        auto *n = wickr_node_create(rnd(32), wickr_identity_chain_create(root, nd), kp);
        if (!n || !wickr_node_verify_signature_chain(n, &e)) die("stranger");
        wickr_buffer_t *b = wickr_node_serialize(n); wickr_node_destroy(&n);
        pool.push_back(wickr_node_create_from_buffer(b, &e)); wickr_buffer_destroy(&b);      // the public form
    }
    return wickr_node_copy(pool[i]);
}
// a node slot, "-" for a missing one, or "*n" for n strangers
static wickr_node_array_t *nodes(const Args &a, size_t from) {
    std::vector<wickr_node_t *> v; size_t st = 0;
    for (size_t i = from; i < a.size(); i++)
        if (a[i][0] == '*') for (size_t n = unum(a[i].substr(1)); n--;) v.push_back(stranger(st++));
        else v.push_back(a[i] == "-" ? nullptr : wickr_node_copy(get<wickr_node_t>(a[i])));
    auto *arr = wickr_node_array_new((uint32_t)v.size());
    for (size_t i = 0; i < v.size(); i++) if (v[i]) wickr_node_array_set_item(arr, (uint32_t)i, v[i]);
    return arr;
}
// pk_encode <prefix> <ctx> <payload> <nodes...>: <prefix> gets the bytes, <prefix>k the payload key
CMD("pk_encode", 4) {
    auto *arr = nodes(a, 4);
    record_enc = true; enc_log.clear();
    auto *r = wickr_ctx_encode_packet(ctxof(a[2]), get<wickr_payload_t>(a[3]), arr);
    record_enc = false;
    wickr_array_destroy(&arr, true);
    o.b("r", r);
    std::string s = "["; for (auto &e : enc_log) { if (s.size() > 1) s += ","; s += "[" + std::to_string(e.key) + "," + std::to_string(e.iv) + "]"; } o.raw("enc", s + "]"); enc_log.clear();
    wickr_buffer_t *b = nullptr; wickr_cipher_key_t *k = nullptr;
    if (r) {
        b = wickr_packet_serialize(r->packet); k = wickr_cipher_key_copy(r->packet_key);
        wickr_buffer_t *h = nullptr, *y = nullptr; unpack(r->packet, &h, &y);
        auto *pl = get<wickr_payload_t>(a[3]);
        o.i("key", btok(k->key_data)).i("ver", r->packet->version).i("hdr", btok(h)).i("pay", btok(y)).b("leak", (pl->body->length > 7 && contains(b, pl->body)) || contains(b, k->key_data)).b("auth", k->cipher.is_authenticated);
        auto *hc = wickr_cipher_result_from_buffer(h), *yc = wickr_cipher_result_from_buffer(y);
        o.i("hiv", btok(hc->iv)).i("piv", btok(yc->iv)).b("sealed", hc->cipher.is_authenticated && yc->cipher.is_authenticated);
        auto *ks = wickr_key_exchange_set_create_from_cipher(&ENG, hc, ctxof(a[2])->packet_header_key);
        o.i("eph", ks ? btok(ks->sender_pub->pub_data) : 0).i("n", ks ? wickr_array_get_item_count(ks->exchanges) : -1);
        wickr_key_exchange_set_destroy(&ks); wickr_cipher_result_destroy(&hc); wickr_cipher_result_destroy(&yc); wickr_buffer_destroy(&h); wickr_buffer_destroy(&y);
    }
    put(a[1], b); put(a[1] + "k", k);
    wickr_encoder_result_destroy(&r);
}
static wickr_cipher_key_t *hkey(wickr_crypto_engine_t, wickr_cipher_t c, const wickr_identity_chain_t *ch) { return wickr_cipher_key_create(c, ENG.wickr_crypto_engine_digest(ch->root->identifier, ch->node->identifier, DIGEST_SHA_256)); }
// pk_forge <dst> <signing ctx> <version> <h mode> <h packet> <h owner ctx> <p mode> <p packet> <p key>
// h: of | rekey | ctr | junk | badtag | empty | swap | more       p: of | junk | badtag | ctr | short | nometa
CMD("pk_forge", 10) {
    Ctx *s = ctxof(a[2]);
    auto *hp = wickr_packet_create_from_buffer(buf(a[5])), *pp = wickr_packet_create_from_buffer(buf(a[8]));
    wickr_buffer_t *h = nullptr, *hx = nullptr, *y = nullptr, *yx = nullptr;
    if (!hp || !pp || !unpack(hp, &h, &hx) || !unpack(pp, &yx, &y)) die("pk_forge: source does not parse");
    const std::string &hm = a[4], &pm = a[7];
    if (hm == "junk") { h->bytes[0] = 77; }
    else if (hm == "badtag") h->bytes[h->length - 1] ^= 1;
    else if (hm != "of") {
        auto *hc = wickr_cipher_result_from_buffer(h); auto *ok = hkey(ENG, CIPHER_AES256_GCM, ctxof(a[6])->id_chain);
        auto *ks = wickr_key_exchange_set_create_from_cipher(&ENG, hc, ok); if (!ks) die("pk_forge: header");
        uint32_t n = wickr_array_get_item_count(ks->exchanges);
        if (hm == "swap" && n > 1) { auto *x = wickr_exchange_array_fetch_item(ks->exchanges, 0), *z = wickr_exchange_array_fetch_item(ks->exchanges, 1); std::swap(x->exchange_ciphertext, z->exchange_ciphertext); }
        auto *pt = wickr_key_exchange_set_serialize(ks);
        if (hm == "empty") { wickr_buffer_destroy(&pt); pt = openssl_crypto_random(40); pt->bytes[0] = 0xff; }
        auto *nk = hkey(ENG, hm == "ctr" ? CIPHER_AES256_CTR : CIPHER_AES256_GCM, s->id_chain);
        auto *nc = ENG.wickr_crypto_engine_cipher_encrypt(pt, nullptr, nk, nullptr);
        wickr_buffer_destroy(&h); h = wickr_cipher_result_serialize(nc);
        wickr_buffer_destroy(&pt); wickr_cipher_key_destroy(&nk); wickr_cipher_key_destroy(&ok); wickr_cipher_result_destroy(&nc); wickr_cipher_result_destroy(&hc); wickr_key_exchange_set_destroy(&ks);
    }
    if (pm == "junk") { y->bytes[0] = 99; }
    else if (pm == "badtag") y->bytes[y->length - 1] ^= 1;
    else if (pm != "of") {
        auto *yc = wickr_cipher_result_from_buffer(y); auto *k = get<wickr_cipher_key_t>(a[9]);
        auto *pt = ENG.wickr_crypto_engine_cipher_decrypt(yc, nullptr, k, true); if (!pt) die("pk_forge: payload");
        if (pm == "short") pt->length -= 1;
        if (pm == "nometa") { wickr_buffer_destroy(&pt); pt = mkhex("2203616263"); }       // body only
        auto *k2 = wickr_cipher_key_create(pm == "ctr" ? CIPHER_AES256_CTR : CIPHER_AES256_GCM, wickr_buffer_copy(k->key_data));
        auto *nc = ENG.wickr_crypto_engine_cipher_encrypt(pt, nullptr, k2, nullptr);
        wickr_buffer_destroy(&y); y = wickr_cipher_result_serialize(nc);
        wickr_buffer_destroy(&pt); wickr_cipher_key_destroy(&k2); wickr_cipher_result_destroy(&nc); wickr_cipher_result_destroy(&yc);
    }
    Wickr__Proto__Packet pr = WICKR__PROTO__PACKET__INIT;
    pr.enc_header.data = h->bytes; pr.enc_header.len = h->length; pr.enc_payload.data = y->bytes; pr.enc_payload.len = y->length;
    auto *ct = wickr_buffer_create_empty(wickr__proto__packet__get_packed_size(&pr)); wickr__proto__packet__pack(&pr, ct->bytes);
    if (pm == "cut") {}
    auto *sg = ENG.wickr_crypto_engine_ec_sign(s->id_chain->node->sig_key, ct, DIGEST_SHA_512);
    auto *np = wickr_packet_create((uint8_t)num(a[3]), ct, sg);
    o.b("r", put(a[1], wickr_packet_serialize(np)));
    wickr_packet_destroy(&np); wickr_packet_destroy(&hp); wickr_packet_destroy(&pp);
    for (auto **b : {&h, &hx, &y, &yx}) wickr_buffer_destroy(b);
}
// pk_sign <dst> <ctx> <buf>: packet whose content is arbitrary bytes signed by the ctx
CMD("pk_signraw", 5) {
    auto *c = wickr_buffer_copy(buf(a[3])); auto *sg = ENG.wickr_crypto_engine_ec_sign(ctxof(a[2])->id_chain->node->sig_key, c, digest_of(a[4]));
    auto *np = wickr_packet_create(4, c, sg); o.b("r", put(a[1], wickr_packet_serialize(np))); wickr_packet_destroy(&np);
}
// pk_splice <dst> <content of> <signature of>
CMD("pk_splice", 4) {
    auto *x = buf(a[2]), *y = buf(a[3]); std::string v((char *)x->bytes, x->length - 143); v.append((char *)y->bytes + y->length - 143, 143);
    o.b("r", put(a[1], wickr_buffer_create((const uint8_t *)v.data(), v.size())));
}
CMD("pk_round", 3) { auto *p = wickr_packet_create_from_buffer(buf(a[2])); auto *c = wickr_packet_copy(p); wickr_packet_destroy(&p); auto *b = c ? wickr_packet_serialize(c) : nullptr; o.b("r", b).b("same", b && wickr_buffer_is_equal(b, buf(a[2]), nullptr)); wickr_packet_destroy(&c); put(a[1], b); }
static const char *errname(wickr_decode_error e) {
    switch (e) { case E_SUCCESS: return "ok"; case ERROR_INVALID_INPUT: return "input"; case ERROR_NODE_NOT_FOUND: return "notforme"; case ERROR_CORRUPT_PACKET: return "corrupt"; case ERROR_KEY_EXCHANGE_FAILED: return "kex"; case ERROR_MAC_INVALID: return "mac"; }
    return "?";
}
// mp_parse <slot> ctx|nodecode|stateless <ctx> <buf> <claim chain>
CMD("mp_parse", 6) {
    wickr_ctx_packet_t *p = nullptr; Ctx *c = ctxof(a[3]); auto *ch = get<wickr_identity_chain_t>(a[5]);
    if (a[2] == "ctx") p = wickr_ctx_parse_packet(c, buf(a[4]), ch);
    else if (a[2] == "nodecode") p = wickr_ctx_parse_packet_no_decode(c, buf(a[4]), ch);
    else p = wickr_ctx_stateless_parse_packet(&ENG, c ? c->id_chain->node->identifier : nullptr, buf(a[4]), ch);
    o.b("r", p);
    if (p) {
        auto *q = p->parse_result;
        o.str("sig", q->signature_status == PACKET_SIGNATURE_VALID ? "valid" : q->signature_status == PACKET_SIGNATURE_INVALID ? "invalid" : "unknown").str("err", errname(q->err));
        o.b("set", q->key_exchange_set).b("kex", q->key_exchange).b("pay", q->enc_payload);
        std::string s = "["; if (q->key_exchange_set) for (uint32_t i = 0; i < wickr_array_get_item_count(q->key_exchange_set->exchanges); i++) {
            auto *e = wickr_exchange_array_fetch_item(q->key_exchange_set->exchanges, i); if (i) s += ","; s += "[" + std::to_string(btok(e->exchange_id)) + "," + std::to_string(e->key_id) + "]"; }
        o.raw("rcpt", s + "]"); o.u("kid", q->key_exchange ? q->key_exchange->key_id : 0);
        o.b("fail", q->err != E_SUCCESS && (q->key_exchange_set || q->key_exchange || q->enc_payload));
    }
    put(a[1], p);
}
// pk_decode <slot> <ctx> <parsed> <ec key> : slot gets the decode result
CMD("pk_decode", 5) {
    auto *d = wickr_ctx_decode_packet(ctxof(a[2]), get<wickr_ctx_packet_t>(a[3]), get<wickr_ec_key_t>(a[4]));
    if (d && a.size() > 5 && a[5] == "copy") { auto *c = wickr_decode_result_copy(d); wickr_decode_result_destroy(&d); d = c; }
    o.b("r", d);
    if (d) {
        o.str("err", errname(d->err)).i("key", d->payload_key ? btok(d->payload_key->key_data) : 0);
        auto *p = d->decrypted_payload;
        o.b("pay", p).i("body", p ? btok(p->body) : 0);
        if (p) o.i("tag", btok(p->meta->channel_tag)).u("ttl", p->meta->ephemerality_settings.ttl).u("bor", p->meta->ephemerality_settings.bor).i("type", p->meta->content_type);
    }
    put(a[1], d);
}
