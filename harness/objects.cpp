// Every kind of object of the library: made with any of its optional parts, copied, serialised, restored, altered, shown field by field.
#include "sut.hpp"
#include <functional>
extern "C" {
#include "ecdh_cipher_ctx.h"
#include "transport_packet.h"
#include "transport_root_key.h"
#include "transport_handshake.h"
}
typedef std::string S;
static unsigned long long rs = 88172645463325252ULL, fresh_n = 0;
static unsigned long long rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static OnReset ob_r([] { fresh_n = 0; });
CMD("ob_seed", 2) { rs = unum(a[1]) * 2654435761ULL + 88172645463325252ULL; for (int i = 0; i < 8; i++) rnd(); o.b("r", true); }
static wickr_buffer_t *rb(size_t lo, size_t hi) { size_t n = lo + (hi > lo ? rnd() % (hi - lo + 1) : 0); auto *b = wickr_buffer_create_empty(n); for (size_t i = 0; i < n; i++) b->bytes[i] = (uint8_t)(rnd() >> 17); 
    unsigned long long f = ++fresh_n; if (n >= 16) memcpy(b->bytes + n / 2, &f, 8); return b; }
static wickr_buffer_t *rb(size_t n) { return rb(n, n); }
// ---- fields ----------------------------------------------------------------------------------------------------
struct Visit {
    S pre;
    std::function<void(const S &, wickr_buffer_t *)> buffer;
    std::function<void(const S &, const S &, void *, int)> number;      // name, value as text, where, width (0: not to be altered)
    void b(const char *n, wickr_buffer_t *x) { buffer(pre + n, x); }
    template <class T> void u(const char *n, T &x) { number(pre + n, std::to_string((unsigned long long)x), &x, sizeof(T)); }
    void k(const char *n, const S &v) { number(pre + n, v, nullptr, 0); }
    template <class T> void sub(const char *n, T *x) { S p = pre; pre += n; pre += "."; fields(x, *this); pre = p; }
};
static S cs(const wickr_cipher_t &c) { return std::to_string(c.cipher_id) + "/" + std::to_string(c.key_len) + "/" + std::to_string(c.iv_len) + "/" + std::to_string(c.auth_tag_len) + "/" + std::to_string(c.is_authenticated); }
static S vs(const wickr_ec_curve_t &c) { return std::to_string(c.identifier) + "/" + std::to_string(c.signature_size) + "/" + std::to_string(c.raw_signature_size) + "/" + std::to_string(c.max_pub_size); }
static S ds(const wickr_digest_t &d) { return std::to_string(d.type) + "/" + std::to_string(d.digest_id) + "/" + std::to_string(d.size); }
static S as(const wickr_kdf_algo_t &d) { return std::to_string(d.algo_id) + "/" + std::to_string(d.kdf_id) + "/" + std::to_string(d.salt_size) + "/" + std::to_string(d.output_size) + "/" + std::to_string(d.cost); }
// x may be NULL everywhere: then every field is absent
static void fields(wickr_ec_key_t *x, Visit &v) { v.k("curve", x ? vs(x->curve) : ""); v.b("pub", x ? x->pub_data : 0); v.b("pri", x ? x->pri_data : 0); }
static void fields(wickr_ecdsa_result_t *x, Visit &v) { v.k("curve", x ? vs(x->curve) : ""); v.k("dig", x ? ds(x->digest_mode) : ""); v.b("data", x ? x->sig_data : 0); }
static void fields(wickr_cipher_key_t *x, Visit &v) { v.k("cipher", x ? cs(x->cipher) : ""); v.b("data", x ? x->key_data : 0); }
static void fields(wickr_cipher_result_t *x, Visit &v) { v.k("cipher", x ? cs(x->cipher) : ""); v.b("iv", x ? x->iv : 0); v.b("ct", x ? x->cipher_text : 0); v.b("tag", x ? x->auth_tag : 0); }
static void fields(wickr_identity_t *x, Visit &v) { v.k("type", x ? std::to_string(x->type) : ""); v.b("id", x ? x->identifier : 0); v.sub("key", x ? x->sig_key : 0); v.sub("sig", x ? x->signature : 0); }
static void fields(wickr_identity_chain_t *x, Visit &v) { v.k("status", x && x->status ? std::to_string(x->status) : ""); v.sub("root", x ? x->root : 0); v.sub("node", x ? x->node : 0); }
static void fields(wickr_ephemeral_keypair_t *x, Visit &v) { if (x) v.u("id", x->identifier); else v.k("id", ""); v.sub("key", x ? x->ec_key : 0); v.sub("sig", x ? x->signature : 0); }
static void fields(wickr_node_t *x, Visit &v) { v.k("status", x && x->status ? std::to_string(x->status) : ""); v.b("dev", x ? x->dev_id : 0); v.sub("chain", x ? x->id_chain : 0); v.sub("eph", x ? x->ephemeral_keypair : 0); }
static void fields(wickr_key_exchange_t *x, Visit &v) { v.b("to", x ? x->exchange_id : 0); if (x) v.u("id", x->key_id); else v.k("id", ""); v.sub("ct", x ? x->exchange_ciphertext : 0); }
static void fields(wickr_key_exchange_set_t *x, Visit &v) {
    v.sub("pub", x ? x->sender_pub : 0); uint32_t n = x ? wickr_array_get_item_count(x->exchanges) : 0;
    for (uint32_t i = 0; i < 2; i++) v.sub(i ? "x2" : "x1", i < n ? wickr_exchange_array_fetch_item(x->exchanges, i) : (wickr_key_exchange_t *)nullptr);
    v.k("n", x ? std::to_string(n) : "");
}
static void fields(wickr_packet_meta_t *x, Visit &v) {
    if (x) { v.u("ttl", x->ephemerality_settings.ttl); v.u("bor", x->ephemerality_settings.bor); v.u("type", x->content_type); } else { v.k("ttl", ""); v.k("bor", ""); v.k("type", ""); }
    v.b("tag", x ? x->channel_tag : 0);
}
static void fields(wickr_payload_t *x, Visit &v) { v.sub("meta", x ? x->meta : 0); v.b("body", x ? x->body : 0); }
static void fields(wickr_root_keys_t *x, Visit &v) { v.sub("sig", x ? x->node_signature_root : 0); v.sub("ns", x ? x->node_storage_root : 0); v.sub("rs", x ? x->remote_storage_root : 0); }
static void fields(wickr_storage_keys_t *x, Visit &v) { v.sub("local", x ? x->local : 0); v.sub("remote", x ? x->remote : 0); }
static void fields(wickr_stream_key_t *x, Visit &v) { v.sub("key", x ? x->cipher_key : 0); v.b("evo", x ? x->evolution_key : 0); v.b("user", x ? x->user_data : 0); if (x) v.u("ppe", x->packets_per_evolution); else v.k("ppe", ""); }
static void fields(wickr_packet_t *x, Visit &v) { v.k("ver", x ? std::to_string(x->version) : ""); v.b("content", x ? x->content : 0); v.sub("sig", x ? x->signature : 0); }
static void fields(wickr_encoder_result_t *x, Visit &v) { v.sub("key", x ? x->packet_key : 0); v.sub("packet", x ? x->packet : 0); }
static void fields(wickr_decode_result_t *x, Visit &v) { v.k("err", x ? std::to_string(x->err) : ""); v.sub("key", x ? x->payload_key : 0); v.sub("pay", x ? x->decrypted_payload : 0); }
static void fields(wickr_parse_result_t *x, Visit &v) { v.k("err", x ? std::to_string(x->err) : ""); v.k("sig", x ? std::to_string(x->signature_status) : ""); v.sub("set", x ? x->key_exchange_set : 0); v.sub("kex", x ? x->key_exchange : 0); v.sub("enc", x ? x->enc_payload : 0); }
static void fields(wickr_dev_info_t *x, Visit &v) { v.b("salt", x ? x->dev_salt : 0); v.b("sys", x ? x->system_salt : 0); v.b("msg", x ? x->msg_proto_id : 0); v.b("srv", x ? x->srv_comm_id : 0); }
static void fields(wickr_kdf_meta_t *x, Visit &v) { v.k("algo", x ? as(x->algo) : ""); v.b("salt", x ? x->salt : 0); v.b("info", x ? x->info : 0); }
static void fields(wickr_kdf_result_t *x, Visit &v) { v.sub("meta", x ? x->meta : 0); v.b("hash", x ? x->hash : 0); }
static void fields(wickr_transport_packet_t *x, Visit &v) {
    v.k("type", x ? std::to_string(x->meta.body_type) + "/" + std::to_string(x->meta.mac_type) + (x->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE ? "/" + std::to_string(x->meta.body_meta.handshake.protocol_version) : "") : "");
    v.k("x", !x ? "" : std::to_string(x->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE ? x->meta.body_meta.handshake.flags : x->meta.body_meta.data.sequence_number));
    v.b("body", x ? x->body : 0); v.b("mac", x ? x->mac : 0);
}
static void fields(wickr_transport_root_key_t *x, Visit &v) { v.k("cipher", x ? cs(x->cipher) : ""); v.b("secret", x ? x->secret : 0); if (x) { v.u("send", x->packets_per_evo_send); v.u("recv", x->packets_per_evo_recv); } else { v.k("send", ""); v.k("recv", ""); } }
static void fields(wickr_ctx_t *x, Visit &v) { v.sub("dev", x ? x->dev_info : 0); v.sub("chain", x ? x->id_chain : 0); v.sub("sk", x ? x->storage_keys : 0); v.sub("hk", x ? x->packet_header_key : 0); v.k("ver", x ? std::to_string(x->pkt_enc_version) : ""); }
static void fields(wickr_ctx_gen_result_t *x, Visit &v) { v.sub("ctx", x ? x->ctx : 0); v.sub("rec", x ? x->recovery_key : 0); v.sub("rk", x ? x->root_keys : 0); }
static void fields(wickr_fingerprint_t *x, Visit &v) { v.k("type", x ? std::to_string(x->type) : ""); v.b("data", x ? x->data : 0); }
static void fields(wickr_ecdh_cipher_ctx_t *x, Visit &v) { v.sub("key", x ? x->local_key : 0); v.k("cipher", x ? cs(x->cipher) : ""); }
static void fields(wickr_stream_iv_t *x, Visit &v) { v.b("seed", x ? x->seed : 0); v.k("cipher", x ? cs(x->cipher) : ""); if (x) v.u("count", x->gen_count); else v.k("count", ""); }
static void fields(wickr_stream_ctx_t *x, Visit &v) { v.sub("key", x ? x->key : 0); v.sub("iv", x ? x->iv_factory : 0); if (x) v.u("last", x->last_seq); else v.k("last", ""); v.k("dir", x ? std::to_string(x->direction) : ""); }
struct HsRes { wickr_transport_handshake_res_t *p; };
static void fields(wickr_transport_handshake_res_t *x, Visit &v) { v.sub("local", x ? (wickr_stream_key_t *)wickr_transport_handshake_res_get_local_key(x) : 0); v.sub("remote", x ? (wickr_stream_key_t *)wickr_transport_handshake_res_get_remote_key(x) : 0); }
struct NodeArr { wickr_node_array_t *p; }; struct ExArr { wickr_exchange_array_t *p; };
static void fields(NodeArr *x, Visit &v) { for (uint32_t i = 0; i < 2; i++) v.sub(i ? "n2" : "n1", x ? wickr_node_array_fetch_item(x->p, i) : (wickr_node_t *)nullptr); v.k("n", x ? std::to_string(wickr_array_get_item_count(x->p)) : ""); }
static void fields(ExArr *x, Visit &v) { for (uint32_t i = 0; i < 2; i++) v.sub(i ? "x2" : "x1", x ? wickr_exchange_array_fetch_item(x->p, i) : (wickr_key_exchange_t *)nullptr); v.k("n", x ? std::to_string(wickr_array_get_item_count(x->p)) : ""); }
static void d_na(NodeArr **x) { if (*x) { wickr_node_array_destroy(&(*x)->p); delete *x; *x = nullptr; } }
static void d_ea(ExArr **x) { if (*x) { wickr_exchange_array_destroy(&(*x)->p); delete *x; *x = nullptr; } }
// ---- making ------------------------------------------------------------------------------------------------------
// without: the optional parts that are left out, as "+part+part+"; var: 1 or 2, which of two fixed values
static const S *W; static int VAR;
static bool with(const S &p) { return W->find("+" + p + "+") == S::npos; }
static wickr_ec_key_t *fresh_key() {
    static std::vector<wickr_ec_key_t *> pool; static size_t next = 0; static unsigned long long last = 0;
    if (fresh_n < last) next = 0;
    last = ++fresh_n;
    if (next == pool.size()) pool.push_back(openssl_ec_rand_key(EC_CURVE_NIST_P521));
    return wickr_ec_key_copy(pool[next++]);
}
static wickr_ec_key_t *m_key(const S &p) { auto *k = fresh_key(); if (!with(p + "pri")) wickr_buffer_destroy_zero(&k->pri_data); return k; }
static wickr_cipher_t ciph() { return VAR == 1 ? CIPHER_AES256_GCM : CIPHER_AES256_CTR; }
static wickr_digest_t digst() { return VAR == 1 ? DIGEST_SHA_512 : DIGEST_SHA_256; }
static wickr_ecdsa_result_t *m_sig(const wickr_ec_key_t *by, const wickr_buffer_t *d) { return openssl_ec_sign(by, d, digst()); }
static wickr_ecdsa_result_t *m_sig() { auto *b = rb(20, 90); auto *k = fresh_key(); auto *s = m_sig(k, b); wickr_buffer_destroy(&b); wickr_ec_key_destroy(&k); return s; }
static wickr_cipher_key_t *m_ckey(wickr_cipher_t c) { return wickr_cipher_key_create(c, rb(c.key_len)); }
static wickr_cipher_key_t *m_ckey() { return m_ckey(ciph()); }
static wickr_cipher_result_t *m_cres() { auto c = ciph(); return wickr_cipher_result_create(c, rb(c.iv_len), rb(16, 300), c.auth_tag_len ? rb(c.auth_tag_len) : nullptr); }
static wickr_identity_t *m_ident(const S &p) {
    auto *k = fresh_key(), *root = fresh_key(); auto *s = with(p + "sig") ? m_sig(root, k->pub_data) : nullptr; wickr_ec_key_destroy(&root);
    if (!with(p + "key.pri")) wickr_buffer_destroy_zero(&k->pri_data);
    return wickr_identity_create(VAR == 1 ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT, rb(16, 127), k, s);
}
static wickr_identity_chain_t *m_chain(const S &p) {
    auto *r = wickr_identity_create(IDENTITY_TYPE_ROOT, rb(16, 127), fresh_key(), nullptr);
    auto *nk = fresh_key(); auto *n = wickr_identity_create(IDENTITY_TYPE_NODE, rb(16, 127), nk, m_sig(r->sig_key, nk->pub_data));
    auto *c = wickr_identity_chain_create(r, n);
    if (with(p + "status")) wickr_identity_chain_validate(c, &ENG);
    if (!with(p + "root.key.pri")) wickr_buffer_destroy_zero(&r->sig_key->pri_data);
    if (!with(p + "node.key.pri")) wickr_buffer_destroy_zero(&nk->pri_data);
    return c;
}
static unsigned long long m_num() { return (rnd() << 12) + ++fresh_n % 4096; }
static wickr_ephemeral_keypair_t *m_eph(const S &p, const wickr_identity_t *by) {
    auto *k = fresh_key(); auto *bk = by && by->sig_key->pri_data ? wickr_ec_key_copy(by->sig_key) : fresh_key();
    auto *s = with(p + "sig") ? m_sig(bk, k->pub_data) : nullptr; wickr_ec_key_destroy(&bk);
    if (!with(p + "key.pri")) wickr_buffer_destroy_zero(&k->pri_data);
    return wickr_ephemeral_keypair_create(m_num(), k, s);
}
static wickr_node_t *m_node(const S &p) { auto *c = m_chain(p + "chain."); auto *n = wickr_node_create(rb(16, 127), c, with(p + "eph") ? m_eph(p + "eph.", c->node) : nullptr);
    if (with(p + "eph") && with(p + "status") && with(p + "eph.sig")) wickr_node_verify_signature_chain(n, &ENG);
    return n; }
static wickr_key_exchange_t *m_kex() { return wickr_key_exchange_create(rb(16, 40), m_num(), m_cres()); }
static wickr_exchange_array_t *m_exs(int n) { auto *x = wickr_exchange_array_new(n); for (int i = 0; i < n; i++) wickr_exchange_array_set_item(x, i, m_kex()); return x; }
static wickr_key_exchange_set_t *m_set(const S &p) { auto *k = fresh_key(); if (!with(p + "pub.pri")) wickr_buffer_destroy_zero(&k->pri_data); return wickr_key_exchange_set_create(k, m_exs(!with(p + "x1") ? 0 : with(p + "x2") ? 2 : 1)); }
static wickr_packet_meta_t *m_meta(const S &p) { static uint16_t t; wickr_ephemeral_info_t e = {m_num(), m_num()}; return wickr_packet_meta_create(e, with(p + "tag") ? rb(16, 100) : nullptr, ++t); }
static wickr_payload_t *m_pay(const S &p) { return wickr_payload_create(m_meta(p + "meta."), rb(16, 500)); }
static wickr_root_keys_t *m_rk(const S &p) { return wickr_root_keys_create(m_key(p + "sig."), m_ckey(), m_ckey()); }
static wickr_storage_keys_t *m_sk() { return wickr_storage_keys_create(m_ckey(), m_ckey()); }
static wickr_stream_key_t *m_skey(const S &p) { static uint32_t t; return wickr_stream_key_create_user_data(m_ckey(), rb(32), 1 + ++t % 32768, with(p + "user") ? rb(16, 100) : nullptr); }
// a packet is signed with the digest of its curve
static wickr_packet_t *m_packet() { int v = VAR; VAR = 1; auto *s = m_sig(); VAR = v; return wickr_packet_create(VAR == 1 ? 4 : 2, rb(40, 400), s); }
static wickr_dev_info_t *m_dev() { return wickr_dev_info_create(rb(16), rb(64), rb(32), rb(32)); }
static wickr_kdf_meta_t *m_kdf(const S &p) { return VAR == 1 ? wickr_kdf_meta_create(KDF_SCRYPT_2_17, rb(16), with(p + "info") ? rb(16, 80) : nullptr) : wickr_kdf_meta_create(KDF_HKDF_SHA512, rb(64), with(p + "info") ? rb(16, 80) : nullptr); }
static wickr_transport_packet_t *m_tpkt() {
    wickr_transport_packet_meta_t m; bool mac = with("mac");
    if (VAR == 1) wickr_transport_packet_meta_initialize_handshake(&m, 1, mac ? TRANSPORT_MAC_TYPE_EC_P521 : TRANSPORT_MAC_TYPE_NONE); else wickr_transport_packet_meta_initialize_data(&m, m_num(), mac ? TRANSPORT_MAC_TYPE_EC_P521 : TRANSPORT_MAC_TYPE_AUTH_CIPHER);
    if (VAR == 1) m.body_meta.handshake.flags = m_num();
    auto *p = wickr_transport_packet_create(m, rb(16, 300)); 
    if (p && mac) { auto *c = m_chain("-"); wickr_transport_packet_sign(p, &ENG, c); wickr_identity_chain_destroy(&c); }
    return p;
}
static wickr_transport_root_key_t *m_trk() { static uint32_t t; t += 2; return wickr_transport_root_key_create(rb(32), ciph(), 1 + t % 32768, 1 + (t + 1) % 32768); }
static wickr_ctx_t *m_ctx(const S &p) { static int n; auto *c = wickr_ctx_create(ENG, m_dev(), m_chain(p + "chain."), m_sk()); if (c) c->pkt_enc_version = VAR == 1 ? 4 : 2; n++; return c; }
static wickr_parse_result_t *m_pres() {
    if (VAR == 1) return wickr_parse_result_create_success(m_set("set."), m_kex(), m_cres());
    return wickr_parse_result_create_failure(PACKET_SIGNATURE_VALID, ERROR_NODE_NOT_FOUND);
}
static wickr_decode_result_t *m_dres() { if (VAR == 1) { VAR = 1; return wickr_decode_result_create_success(m_pay("pay."), m_ckey()); } return wickr_decode_result_create_failure(ERROR_MAC_INVALID); }
static wickr_stream_ctx_t *m_sctx() { auto *c = wickr_stream_ctx_create(ENG, [] { auto *k = m_skey("key."); if (k) k->packets_per_evolution = 100 + k->packets_per_evolution % 30000; return k; }(), VAR == 1 ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE);
    for (int i = rnd() % 4; c && VAR == 1 && i > 0; i--) { auto *b = rb(20); auto *r = wickr_stream_ctx_encode(c, b, nullptr, c->last_seq + 1); wickr_buffer_destroy(&b); wickr_cipher_result_destroy(&r); } return c; }
static wickr_stream_iv_t *m_siv() { auto *i = wickr_stream_iv_create(ENG, ciph()); for (int n = rnd() % 4; n > 0; n--) { auto *b = wickr_stream_iv_generate(i); wickr_buffer_destroy(&b); } return i; }
// ---- kinds -------------------------------------------------------------------------------------------------------
struct Kind {
    std::function<bool(const S &)> make; std::function<bool(const S &, const S &)> copy;
    std::function<wickr_buffer_t *(const S &)> ser; std::function<bool(const S &, const wickr_buffer_t *)> from; std::function<void(const S &, Visit &)> visit;
};
static std::map<S, Kind> &kinds() { static std::map<S, Kind> k; return k; }
template <class T> struct K {
    K(const char *n, std::function<T *()> make, std::function<T *(const T *)> copy, std::function<wickr_buffer_t *(const T *)> ser = nullptr, std::function<T *(const wickr_buffer_t *)> from = nullptr) {
        Kind k; k.make = [make](const S &s) { return put(s, make()); }; k.copy = [copy](const S &d, const S &s) { return put(d, copy(get<T>(s))); };
        if (ser) k.ser = [ser](const S &s) { return ser(get<T>(s)); };
        if (from) k.from = [from](const S &d, const wickr_buffer_t *b) { return put(d, from(b)); };
        k.visit = [](const S &s, Visit &v) { fields(get<T>(s), v); };
        kinds()[n] = k;
        S nm = n; viewers()[TypeName<T>::n()] = [nm](void *p, void (*f)(const S &, const wickr_buffer_t *)) { Visit v; v.pre = nm + "."; v.buffer = [f](const S &x, wickr_buffer_t *b) { f(x, b); }; v.number = [](const S &, const S &, void *, int) {}; fields((T *)p, v); };
    }
};
#define E &ENG
static RegType<wickr_key_exchange_t> q1(wickr_key_exchange_destroy); static RegType<wickr_packet_meta_t> q2(wickr_packet_meta_destroy); static RegType<wickr_parse_result_t> q3(wickr_parse_result_destroy);
static RegType<wickr_kdf_meta_t> q4(wickr_kdf_meta_destroy); static RegType<wickr_kdf_result_t> q5(wickr_kdf_result_destroy); static RegType<wickr_transport_root_key_t> q6(wickr_transport_root_key_destroy);
static RegType<wickr_fingerprint_t> q7(wickr_fingerprint_destroy); static RegType<wickr_ecdh_cipher_ctx_t> q8(wickr_ecdh_cipher_ctx_destroy); static RegType<wickr_stream_iv_t> q9(wickr_stream_iv_destroy);
static RegType<wickr_transport_handshake_res_t> q10(wickr_transport_handshake_res_destroy); static RegType<NodeArr> q11(d_na); static RegType<ExArr> q12(d_ea);
static wickr_dev_info_t *ctx_dev;      // restored contexts belong to the device of the one that was serialised
static K<wickr_ec_key_t> k1("eckey", [] { return m_key(""); }, wickr_ec_key_copy);
static K<wickr_ecdsa_result_t> k2("sig", [] { return m_sig(); }, wickr_ecdsa_result_copy, wickr_ecdsa_result_serialize, wickr_ecdsa_result_create_from_buffer);
static K<wickr_cipher_key_t> k3("ckey", [] { return m_ckey(); }, wickr_cipher_key_copy, wickr_cipher_key_serialize, wickr_cipher_key_from_buffer);
static K<wickr_cipher_result_t> k4("cres", [] { return m_cres(); }, wickr_cipher_result_copy, wickr_cipher_result_serialize, wickr_cipher_result_from_buffer);
static K<wickr_identity_t> k5("ident", [] { return m_ident(""); }, wickr_identity_copy, wickr_identity_serialize, [](const wickr_buffer_t *b) { return wickr_identity_create_from_buffer(b, E); });
static K<wickr_identity_chain_t> k6("chain", [] { return m_chain(""); }, wickr_identity_chain_copy, wickr_identity_chain_serialize, [](const wickr_buffer_t *b) { return wickr_identity_chain_create_from_buffer(b, E); });
static K<wickr_ephemeral_keypair_t> k7("eph", [] { return m_eph("", nullptr); }, wickr_ephemeral_keypair_copy, wickr_ephemeral_keypair_serialize, [](const wickr_buffer_t *b) { return wickr_ephemeral_keypair_create_from_buffer(b, E); });
static K<wickr_node_t> k8("node", [] { return m_node(""); }, wickr_node_copy, wickr_node_serialize, [](const wickr_buffer_t *b) { return wickr_node_create_from_buffer(b, E); });
static K<wickr_key_exchange_t> k9("kex", [] { return m_kex(); }, wickr_key_exchange_copy);
static K<wickr_key_exchange_set_t> k10("set", [] { return m_set(""); }, wickr_key_exchange_set_copy, wickr_key_exchange_set_serialize, [](const wickr_buffer_t *b) { return wickr_key_exchange_set_create_from_buffer(E, b); });
static K<wickr_packet_meta_t> k11("meta", [] { return m_meta(""); }, wickr_packet_meta_copy);
static K<wickr_payload_t> k12("payload", [] { return m_pay(""); }, wickr_payload_copy, wickr_payload_serialize, wickr_payload_create_from_buffer);
static K<wickr_root_keys_t> k13("rootkeys", [] { return m_rk(""); }, wickr_root_keys_copy, wickr_root_keys_serialize, [](const wickr_buffer_t *b) { return wickr_root_keys_create_from_buffer(E, b); });
static K<wickr_storage_keys_t> k14("storage", [] { return m_sk(); }, wickr_storage_keys_copy, wickr_storage_keys_serialize, wickr_storage_keys_create_from_buffer);
static K<wickr_stream_key_t> k15("streamkey", [] { return m_skey(""); }, wickr_stream_key_copy, wickr_stream_key_serialize, wickr_stream_key_create_from_buffer);
static K<wickr_packet_t> k16("packet", [] { return m_packet(); }, wickr_packet_copy, wickr_packet_serialize, wickr_packet_create_from_buffer);
static K<wickr_encoder_result_t> k17("encoded", [] { return wickr_encoder_result_create(m_ckey(), m_packet()); }, wickr_encoder_result_copy);
static K<wickr_decode_result_t> k18("decoded", [] { return m_dres(); }, wickr_decode_result_copy);
static K<wickr_parse_result_t> k19("parsed", [] { return m_pres(); }, wickr_parse_result_copy);
static K<wickr_dev_info_t> k20("device", [] { return m_dev(); }, wickr_dev_info_copy);
static K<wickr_kdf_meta_t> k21("kdf", [] { return m_kdf(""); }, wickr_kdf_meta_copy);
static K<wickr_kdf_result_t> k22("kdfresult", [] { return wickr_kdf_result_create(m_kdf("meta."), rb(32, 64)); }, wickr_kdf_result_copy);
static K<wickr_transport_packet_t> k23("tpacket", [] { return m_tpkt(); }, wickr_transport_packet_copy, wickr_transport_packet_serialize, wickr_transport_packet_create_from_buffer);
static K<wickr_transport_root_key_t> k24("troot", [] { return m_trk(); }, wickr_transport_root_key_copy);
static K<wickr_ctx_t> k25("ctx", [] { return m_ctx(""); }, wickr_ctx_copy, [](const wickr_ctx_t *c) { wickr_dev_info_destroy(&ctx_dev); ctx_dev = c ? wickr_dev_info_copy(c->dev_info) : nullptr; return wickr_ctx_serialize(c); },
    [](const wickr_buffer_t *b) { auto *d = wickr_dev_info_copy(ctx_dev); auto *c = wickr_ctx_create_from_buffer(ENG, d, b); if (!c) wickr_dev_info_destroy(&d); return c; });
static K<wickr_ctx_gen_result_t> k26("gen", [] { auto *d = m_dev(); auto *i = rb(20, 60); auto *g = wickr_ctx_gen_new(ENG, d, i); wickr_buffer_destroy(&i); wickr_dev_info_destroy(&d); return g; }, wickr_ctx_gen_result_copy);
static K<wickr_fingerprint_t> k27("print", [] { return wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, rb(64)); }, wickr_fingerprint_copy);
static K<wickr_ecdh_cipher_ctx_t> k28("ecdh", [] { return wickr_ecdh_cipher_ctx_create_key(ENG, m_key("key."), ciph()); }, wickr_ecdh_cipher_ctx_copy);
static K<wickr_stream_iv_t> k29("ivs", [] { return m_siv(); }, wickr_stream_iv_copy);
static K<wickr_stream_ctx_t> k30("stream", [] { return m_sctx(); }, wickr_stream_ctx_copy);
static K<wickr_transport_handshake_res_t> k31("hsresult", [] { return wickr_transport_handshake_res_create(m_skey("local."), m_skey("remote.")); }, wickr_transport_handshake_res_copy);
static K<NodeArr> k32("nodes", [] { auto *x = wickr_node_array_new(2); wickr_node_array_set_item(x, 0, m_node("n1.")); if (with("n2")) wickr_node_array_set_item(x, 1, m_node("n2.")); return new NodeArr{x}; },
    [](const NodeArr *n) { auto *c = wickr_node_array_copy(n->p); return c ? new NodeArr{c} : nullptr; });
static K<ExArr> k33("exchanges", [] { auto *x = wickr_exchange_array_new(2); wickr_exchange_array_set_item(x, 0, m_kex()); if (with("x2")) wickr_exchange_array_set_item(x, 1, m_kex()); return new ExArr{x}; },
    [](const ExArr *n) { auto *c = wickr_exchange_array_copy(n->p); return c ? new ExArr{c} : nullptr; });
#undef E
static Kind &kd(const S &n) { auto i = kinds().find(n); if (i == kinds().end()) die("kind " + n); return i->second; }
static void show(const S &kind, const S &slot, std::map<S, int> &m) {
    Visit v; v.buffer = [&](const S &n, wickr_buffer_t *b) { m[n] = btok(b); };
    v.number = [&](const S &n, const S &x, void *, int) { m[n] = x.empty() ? 0 : tok(("#" + x).data(), x.size() + 1); };
    kd(kind).visit(slot, v);
}
static std::map<S, S> ob_kind;         // slot -> kind
static OnReset ob_k([] { ob_kind.clear(); });
// every living object, field by field
static void all(Out &o) {
    S s = "{"; for (auto &x : ob_kind) { std::map<S, int> m; show(x.second, x.first, m); s += (s.size() > 1 ? ",\"" : "\"") + x.first + "\":{"; bool f = true; for (auto &y : m) { s += (f ? "\"" : ",\"") + y.first + "\":" + std::to_string(y.second); f = false; } s += "}"; }
    o.raw("all", ob_kind.empty() ? S("[]") : s + "}");
}
CMD("ob_make", 5) { S w = "+" + (a[3] == "-" ? "" : a[3]) + "+"; W = &w; VAR = (int)num(a[4]); bool r = kd(a[2]).make(a[1]); if (r) ob_kind[a[1]] = a[2]; o.b("r", r); all(o); }
CMD("ob_copy", 3) { S k = ob_kind.at(a[2]); bool r = kd(k).copy(a[1], a[2]); if (r) ob_kind[a[1]] = k; o.b("r", r); all(o); }
CMD("ob_drop", 2) { drop(a[1]); ob_kind.erase(a[1]); o.b("r", true); all(o); }
CMD("ob_ser", 3) {     // <buf> <slot>; which private parts of the object the bytes contain
    auto *b = kd(ob_kind.at(a[2])).ser(a[2]); S leak; 
    Visit v; v.buffer = [&](const S &n, wickr_buffer_t *x) { size_t d = n.rfind('.'); S l = d == S::npos ? n : n.substr(d + 1); if (l == "pri" && x && b) {
        // the DER, or its 66 bytes scalar without leading zeros
        bool in = contains(b, x); if (!in && x->length > 80) { size_t at = 7; while (at < 12 && !x->bytes[at]) at++; wickr_buffer_t raw = {60, x->bytes + at}; in = contains(b, &raw); } if (in) leak += n + " "; } };
    v.number = [](const S &, const S &, void *, int) {}; kd(ob_kind.at(a[2])).visit(a[2], v);
    o.b("r", b).i("bytes", btok(b)).i("len", b ? b->length : 0).str("secret", leak); put(a[1], b); all(o);
}
CMD("ob_from", 4) { bool r = kd(a[2]).from(a[1], buf(a[3])); if (r) ob_kind[a[1]] = a[2]; o.b("r", r); all(o); }
CMD("ob_alter", 3) {   // <slot> <field>
    bool done = false; Visit v;
    v.buffer = [&](const S &n, wickr_buffer_t *b) { if (n == a[2] && b && b->length) { auto f = ++fresh_n * 0x9E3779B97F4A7C15ULL; f ^= f >> 29; f *= 0xBF58476D1CE4E5B9ULL; for (size_t i = 0; i < 8 && i < b->length; i++) b->bytes[b->length - 1 - i] ^= (uint8_t)(f >> (8 * i)); done = true; } };
    v.number = [&](const S &n, const S &, void *p, int w) { if (n == a[2] && p) { auto f = ++fresh_n; if (w == 8) { f *= 0x9E3779B97F4A7C15ULL; *(uint64_t *)p = f ^ (f >> 31); } else if (w == 4) *(uint32_t *)p = (*(uint32_t *)p + (uint32_t)(f % 1000)) % 32768 + 1; else if (w == 2) *(uint16_t *)p += 4096; done = true; } };
    kd(ob_kind.at(a[1])).visit(a[1], v); if (!done) die("ob_alter " + a[1] + " " + a[2]); o.b("r", true); all(o);
}
// ob_mangle <kind> <buf> <n> <need>: all truncations and n other changes of an encoding; whatever is accepted must be whole and serialise to something that restores to the same
CMD("ob_mangle", 5) {
    auto *b = buf(a[2]); auto &k = kd(a[1]); long long tries = 0, taken = 0, mute = 0; std::vector<S> need; { S x; for (char c : a[4] + "+") if (c == '+') { if (!x.empty()) need.push_back(x); x.clear(); } else x += c; } bool sane = true; S why;
    auto attempt = [&](const S &x) {
        tries++; auto *y = x.empty() ? wickr_buffer_create_empty_zero(1) : wickr_buffer_create((const uint8_t *)x.data(), x.size()); if (x.empty()) y->length = 0;
        S before = x; bool r = k.from("_m", y);
        if (S((char *)y->bytes, y->length) != before) { sane = false; why = "input changed"; }
        wickr_buffer_destroy(&y);
        if (!r) return;
        taken++;
        std::map<S, int> m1, m2; show(a[1], "_m", m1); for (auto &z : need) if (!m1[z]) { sane = false; why = "lacks " + z; }
        auto *s1 = k.ser("_m"); if (!s1) { mute++; drop("_m"); return; }
        bool r2 = k.from("_n", s1);
        if (!r2) { sane = false; why = "does not restore again"; }
        else { show(a[1], "_n", m2); auto *s2 = k.ser("_n"); for (auto &z : m1) if (m2[z.first] && m2[z.first] != z.second) { sane = false; why = "restores differently: " + z.first; }
            if (btok(s1) != btok(s2)) { sane = false; why = "serialises differently"; } wickr_buffer_destroy(&s2); }
        wickr_buffer_destroy(&s1); drop("_m"); drop("_n");
    };
    S v((char *)b->bytes, b->length); long long n = num(a[3]);
    for (size_t i = 0; i < v.size(); i++) if (v.size() < 60 || i < 20 || i + 20 > v.size() || (long long)(rnd() % v.size()) < n) attempt(v.substr(0, i));
    for (long long i = 0; i < n && sane; i++) {
        S x = v; size_t p = i < 24 && (size_t)i < v.size() ? i : rnd() % v.size();
        switch (rnd() % 9) {
            case 0: x[p] ^= 1 << (rnd() % 8); break; case 1: x[p] = (char)rnd(); break; case 2: x.erase(p, 1 + rnd() % 4); break; case 3: x.insert(p, S(1 + rnd() % 4, (char)rnd())); break;
            case 4: x[p] = 0; break; case 5: x[p] = (char)0xff; break; case 6: x += S(1 + rnd() % 40, (char)rnd()); break; case 7: { size_t q = rnd() % v.size(); x = v.substr(0, p) + v.substr(q); break; }
            case 8: { x.insert(p, v.substr(rnd() % v.size(), 1 + rnd() % 80)); break; }
        }
        attempt(x);
    }
    o.b("sane", sane).i("tries", tries).i("taken", taken).i("mute", mute).str("why", why);
}
// what NULL and unusable arguments lead to
CMD("ob_null", 2) { auto &k = kd(a[1]); bool r = true; drop("_m"); if (a[1] != "nodes" && a[1] != "exchanges") r = r && !k.copy("_n", "_m"); if (k.ser) { auto *b = k.ser("_m"); r = r && !b; wickr_buffer_destroy(&b); } if (k.from) r = r && !k.from("_n", nullptr); drop("_n"); o.b("refused", r); }
