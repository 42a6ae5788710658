#include "sut.hpp"
#include <set>
#include <openssl/ecdsa.h>
#include <openssl/ec.h>
#include <openssl/objects.h>
extern "C" {
#include "private/transport_priv.h"
#include "private/transport_handshake_priv.h"
#include "private/identity_priv.h"
#include "private/buffer_priv.h"
#include "ecdh_cipher_ctx.h"
#include "transport_packet.h"
#include "transport_root_key.h"
}
// An application around one transport context.
struct EP {
    wickr_transport_ctx_t *ctx = nullptr;
    std::string mode;                           // how identities are judged: later, yes, no
    wickr_transport_validate_identity_callback done = nullptr;
    std::vector<std::string> cb;
    int msg = 0, ver = 0, pkt = 0, eph = 0; bool nullcb = false;
    bool sink = false, ghost = false; std::vector<wickr_buffer_t *> out; std::vector<wickr_buffer_t *> in;
};
static void ep_destroy(EP **e) { if (*e) { wickr_transport_ctx_destroy(&(*e)->ctx); for (auto &b : (*e)->out) wickr_buffer_destroy(&b); for (auto &b : (*e)->in) wickr_buffer_destroy(&b); delete *e; *e = nullptr; } }
static RegType<EP> rt_ep(ep_destroy);
static bool ep_viewed = [] { viewers()[TypeName<EP>::n()] = [](void *p, void (*f)(const std::string &, const wickr_buffer_t *)) {
    auto *c = ((EP *)p)->ctx; if (!c) return;
    for (auto *s : {c->tx_stream, c->rx_stream}) if (s && s->key) { f("endpoint.evo", s->key->evolution_key); f("endpoint.key", s->key->cipher_key->key_data); }
}; return true; }();
static std::set<std::pair<int, int>> seen_iv;
static OnReset orst([] { seen_iv.clear(); });

static EP *self(const wickr_transport_ctx_t *c) { return (EP *)wickr_transport_ctx_get_user_ctx(c); }
static const char *stn[] = {"NONE", "INIT", "ACTIVE", "ERROR"};
static const char *ern[] = {"NONE", "HANDSHAKE_FAILED", "CREATE_HANDSHAKE_FAILED", "START_HANDSHAKE_FAILED", "PROCESS_HANDSHAKE_FAILED", "HANDSHAKE_VOLLEY_FAILED",
    "BAD_START_STATUS", "BAD_RX_STATE", "BAD_TX_STATE", "PACKET_ENCODE_FAILED", "PACKET_DECODE_FAILED", "PACKET_SERIALIZATION_FAILED", "INVALID_RXDATA"};
// the ephemeral key a handshake packet carries
static int eph_of(const wickr_buffer_t *d) {
    wickr_transport_packet_t *p = wickr_transport_packet_create_from_buffer(d);
    Wickr__Proto__HandshakeV1 *h = p && p->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE ? wickr_proto_handshake_from_packet(p) : nullptr;
    int t = 0;
    if (h) {
        auto &k = h->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED ? h->seed->ephemeral_pubkey : h->response->ephemeral_pubkey;
        t = tok(k.data, k.len);
        wickr__proto__handshake_v1__free_unpacked(h, nullptr);
    }
    wickr_transport_packet_destroy(&p); return t;
}
static void cb_tx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) {
    EP *e = self(c);
    if (e->sink) { e->out.push_back(d); return; }
    e->cb.push_back(d ? "tx" : "tx-null");
    if (e->ghost) { wickr_buffer_destroy(&d); return; }
    if (d) { e->pkt = btok(d); e->eph = eph_of(d); put("w" + std::to_string(++pushn["w"]), d); }
}
static void cb_rx(const wickr_transport_ctx_t *c, wickr_buffer_t *d) {
    EP *e = self(c);
    if (e->sink) { e->in.push_back(d); return; }
    e->cb.push_back("rx"); e->msg = btok(d); wickr_buffer_destroy_zero(&d);
}
static void cb_st(const wickr_transport_ctx_t *c, wickr_transport_status s) {
    EP *e = self(c); e->cb.push_back(std::string(stn[s]) + (wickr_transport_ctx_get_status(c) == s ? "" : "?"));
}
static void cb_ver(const wickr_transport_ctx_t *c, wickr_identity_chain_t *i, wickr_transport_validate_identity_callback done) {
    EP *e = self(c); e->cb.push_back("verify"); e->done = done;
    wickr_buffer_t *b = wickr_identity_chain_serialize(i); e->ver = btok(b); wickr_buffer_destroy(&b);
    wickr_identity_chain_destroy(&i);
    if (e->mode == "yes") done(c, true); else if (e->mode == "no") done(c, false);
}
static bool ivs_fresh() { bool ok = true; for (auto &x : enc_log) ok = seen_iv.insert({x.key, x.iv}).second && ok; enc_log.clear(); return ok; }
static void report(EP *e, Out &o) {
    std::string s = "["; for (size_t i = 0; i < e->cb.size(); i++) s += (i ? ",\"" : "\"") + e->cb[i] + "\""; s += "]";
    auto *c = e->ctx;
    o.raw("cb", s).str("st", stn[wickr_transport_ctx_get_status(c)]).str("err", ern[wickr_transport_ctx_get_last_error(c)]);
    o.i("wire", pushn["w"]).b("fresh", ivs_fresh());
    if (e->msg) o.i("msg", e->msg);
    if (e->ver) o.i("ver", e->ver);
    if (e->pkt) o.i("pkt", e->pkt);
    if (e->eph) o.i("eph", e->eph);
    bool act = c->status == TRANSPORT_STATUS_ACTIVE && c->tx_stream && c->rx_stream;
    o.raw("evo", act ? "[" + std::to_string(c->tx_stream->key->packets_per_evolution) + "," + std::to_string(c->rx_stream->key->packets_per_evolution) + "]" : "[0,0]");
    if (act) o.i("txk", btok(c->tx_stream->key->cipher_key->key_data)).i("rxk", btok(c->rx_stream->key->cipher_key->key_data));
    e->cb.clear(); e->msg = e->ver = e->pkt = e->eph = 0;
}
// tp_new <slot> <chain> <pinned chain|-> <evo> <mode>
CMD("tp_new", 6) {
    record_enc = true;
    wickr_identity_chain_t *l = wickr_identity_chain_copy(get<wickr_identity_chain_t>(a[2])), *r = wickr_identity_chain_copy(get<wickr_identity_chain_t>(a[3]));
    wickr_transport_callbacks_t cb = {cb_tx, cb_rx, cb_st, cb_ver};
    EP *e = new EP; e->mode = a[5];
    e->ctx = wickr_transport_ctx_create(ENG, l, r, (uint32_t)unum(a[4]), cb, e);
    bool ok = e->ctx != nullptr;
    if (!ok) { wickr_identity_chain_destroy(&l); wickr_identity_chain_destroy(&r); delete e; e = nullptr; }
    put(a[1], e); o.b("r", ok);
}
// tp_recopy <e>: the context is replaced by a copy of itself
CMD("tp_recopy", 2) {
    EP *e = get<EP>(a[1]);
    wickr_transport_ctx_t *c = wickr_transport_ctx_copy(e->ctx);
    bool ok = c && wickr_transport_ctx_get_status(c) == wickr_transport_ctx_get_status(e->ctx) && wickr_transport_ctx_get_user_ctx(c) == e;
    if (c) { wickr_transport_ctx_destroy(&e->ctx); e->ctx = c; } else e->cb.push_back("no copy");
    if (!ok) e->cb.push_back("copy differs");
    report(e, o);
}
// tp_clone <dst> <e>: an application of its own around a copy; what it sends goes nowhere
CMD("tp_clone", 3) {
    EP *e = get<EP>(a[2]), *n = new EP; n->mode = e->mode; n->done = e->done; n->ghost = true;
    n->ctx = wickr_transport_ctx_copy(e->ctx);
    if (n->ctx) wickr_transport_ctx_set_user_ctx(n->ctx, n); else { delete n; n = nullptr; }
    o.b("r", put(a[1], n));
}
CMD("tp_start", 2) { EP *e = get<EP>(a[1]); wickr_transport_ctx_start(e->ctx); report(e, o); }
CMD("tp_tx", 3) { EP *e = get<EP>(a[1]); wickr_transport_ctx_process_tx_buffer(e->ctx, buf(a[2])); report(e, o); }
CMD("tp_rx", 3) { EP *e = get<EP>(a[1]); wickr_transport_ctx_process_rx_buffer(e->ctx, buf(a[2])); report(e, o); }
CMD("tp_keys", 2) { auto *c = get<EP>(a[1])->ctx; bool k = c->tx_stream && c->rx_stream; o.str("hex", k ? hex(c->tx_stream->key->cipher_key->key_data) + "|" + hex(c->rx_stream->key->cipher_key->key_data) + "|" + hex(c->tx_stream->key->evolution_key) + "|" + hex(c->rx_stream->key->evolution_key) : ""); }
CMD("tp_q", 2) { report(get<EP>(a[1]), o); }
// tp_done <e> <0|1>: the application answers with the function it was given, if it was given one
CMD("tp_done", 3) {
    EP *e = get<EP>(a[1]);
    if (e->done) e->done(e->ctx, a[2] == "1");
    report(e, o);
}
// tp_forge <src packet> <chain|keep|none> <signer chain> [version]: re-signed handshake packet
CMD("tp_forge", 4) {
    wickr_transport_packet_t *p = wickr_transport_packet_create_from_buffer(buf(a[1]));
    wickr_transport_packet_t *q = nullptr;
    Wickr__Proto__HandshakeV1 *h = p ? wickr_proto_handshake_from_packet(p) : nullptr;
    if (h) {
        Wickr__Proto__IdentityChain *n = nullptr, **w = h->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED ? &h->seed->id_chain : &h->response->id_chain, *old = *w;
        if (a[2] == "none") *w = nullptr;
        else if (a[2] != "keep") *w = n = wickr_identity_chain_to_proto(get<wickr_identity_chain_t>(a[2]));
        q = wickr_proto_handshake_to_packet(h);
        *w = old; if (n) wickr_identity_chain_proto_free(n);
        wickr__proto__handshake_v1__free_unpacked(h, nullptr);
        if (q && a.size() > 4) q->meta.body_meta.handshake.protocol_version = (uint8_t)num(a[4]);
        if (q && wickr_transport_packet_sign(q, &ENG, get<wickr_identity_chain_t>(a[3]))) {
            wickr_buffer_t *b = wickr_transport_packet_serialize(q);
            o.i("pkt", btok(b)); put("w" + std::to_string(++pushn["w"]), b);
        }
    }
    wickr_transport_packet_destroy(&p); wickr_transport_packet_destroy(&q);
    enc_log.clear();
    o.i("wire", pushn["w"]);
}
// tp_twin <src packet> root|pad: another packet that differs from it only in how its signature is written
CMD("tp_twin", 3) {
    const int L = 143; auto *b = buf(a[1]); std::vector<uint8_t> v(b->bytes, b->bytes + b->length);
    uint8_t *m = v.data() + v.size() - L; int pad = m[1];
    if (a[2] == "pad" && pad > 0) m[2] ^= 1;
    else {
        const uint8_t *p = m + 2 + pad; ECDSA_SIG *s = d2i_ECDSA_SIG(nullptr, &p, L - 2 - pad);
        EC_GROUP *g = EC_GROUP_new_by_curve_name(NID_secp521r1); BIGNUM *n = BN_new(), *t = BN_new();
        const BIGNUM *r, *x; ECDSA_SIG_get0(s, &r, &x); EC_GROUP_get_order(g, n, nullptr); BN_sub(t, n, x);
        ECDSA_SIG_set0(s, BN_dup(r), t);
        uint8_t *der = nullptr; int len = i2d_ECDSA_SIG(s, &der);
        memset(m + 1, 0, L - 1); m[1] = L - 2 - len; memcpy(m + L - len, der, len);
        OPENSSL_free(der); ECDSA_SIG_free(s); EC_GROUP_free(g); BN_free(n);
    }
    wickr_buffer_t *q = wickr_buffer_create(v.data(), v.size());
    o.i("pkt", btok(q)); put("w" + std::to_string(++pushn["w"]), q);
    o.i("wire", pushn["w"]);
}
// tp_evil <seed packet> <signer chain> <claimed initiator chain> <kind>: a response M makes up itself
CMD("tp_evil", 5) {
    wickr_transport_packet_t *p = wickr_transport_packet_create_from_buffer(buf(a[1]));
    Wickr__Proto__HandshakeV1 *h = p ? wickr_proto_handshake_from_packet(p) : nullptr;
    auto *me = get<wickr_identity_chain_t>(a[2]), *you = get<wickr_identity_chain_t>(a[3]);
    std::string k = a[4];
    if (h && h->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED) {
        wickr_buffer_t *eph = wickr_buffer_from_protobytes(h->seed->ephemeral_pubkey);
        wickr_ec_key_t *ek = ENG.wickr_crypto_engine_ec_key_import(eph, false);
        wickr_ecdh_cipher_ctx_t *cc = wickr_ecdh_cipher_ctx_create(ENG, EC_CURVE_NIST_P521, CIPHER_AES256_GCM);
        wickr_transport_root_key_t *rk = wickr_transport_root_key_create_random(&ENG, k == "ctr" ? CIPHER_AES256_CTR : CIPHER_AES256_GCM,
            k == "evo0" ? 0 : k == "evobig" ? PACKET_PER_EVO_MAX + 1 : 5, k == "asym" ? 7 : k == "evo0" ? 0 : 5);
        Wickr__Proto__HandshakeV1ResponseData *rd = wickr_proto_handshake_response_data_create(rk);
        if (k == "nosecret") rd->root_key->has_secret = 0;
        if (k == "badcipher") rd->root_key->cipher_id = 9;
        if (k == "short") rd->root_key->secret.len = 31;
        Wickr__Proto__TransportRootKey *keep = rd->root_key;
        if (k == "noroot") rd->root_key = nullptr;
        wickr_buffer_t *plain = wickr_proto_handshake_response_data_serialize(rd);
        rd->root_key = keep;
        wickr_proto_handshake_response_data_free(rd);
        wickr_buffer_t *c1 = wickr_identity_chain_serialize(you), *c2 = wickr_identity_chain_serialize(me);
        wickr_buffer_t *parts[4] = {c1, c2, ek->pub_data, cc->local_key->pub_data};
        wickr_buffer_t *info = wickr_buffer_concat_multi(parts, 4), *hi = ENG.wickr_crypto_engine_digest(info, nullptr, DIGEST_SHA_512);
        wickr_kdf_meta_t *km = wickr_kdf_meta_create(KDF_HKDF_SHA512, nullptr, hi);
        wickr_cipher_result_t *cr = wickr_ecdh_cipher_ctx_cipher(cc, plain ? plain : c1, ek, km);
        wickr_buffer_t *crb = wickr_cipher_result_serialize(cr);
        Wickr__Proto__HandshakeV1__Response *rp = wickr_proto_handshake_response_create(cc->local_key->pub_data, crb, me);
        Wickr__Proto__HandshakeV1 *hp = wickr_proto_handshake_create_with_response(rp);
        wickr_transport_packet_t *q = wickr_proto_handshake_to_packet(hp);
        wickr_proto_handshake_free(hp);
        if (wickr_transport_packet_sign(q, &ENG, me)) { wickr_buffer_t *b = wickr_transport_packet_serialize(q); o.i("pkt", btok(b)); put("w" + std::to_string(++pushn["w"]), b); }
        wickr_transport_packet_destroy(&q);
        wickr_buffer_destroy(&crb); wickr_cipher_result_destroy(&cr); wickr_kdf_meta_destroy(&km); wickr_buffer_destroy(&info); wickr_buffer_destroy(&c1); wickr_buffer_destroy(&c2);
        wickr_buffer_destroy_zero(&plain); wickr_transport_root_key_destroy(&rk); wickr_ecdh_cipher_ctx_destroy(&cc); wickr_ec_key_destroy(&ek); wickr_buffer_destroy(&eph);
    }
    if (h) wickr__proto__handshake_v1__free_unpacked(h, nullptr);
    wickr_transport_packet_destroy(&p);
    enc_log.clear();
    o.i("wire", pushn["w"]);
}
// tp_burst <from> <to> <n>
CMD("tp_burst", 4) {
    EP *x = get<EP>(a[1]), *y = get<EP>(a[2]); long long n = num(a[3]), sent = 0, got = 0, periods = 0;
    x->sink = y->sink = true; ivs_fresh(); std::set<std::string> seen; bool fresh = true;
    auto key = [](wickr_stream_ctx_t *s) { return std::string((char *)s->key->cipher_key->key_data->bytes, 32); };
    std::string last = key(x->ctx->tx_stream);
    record_enc = false;
    for (long long i = 0; i < n; i++) {
        wickr_buffer_t *m = wickr_buffer_create((const uint8_t *)&i, sizeof i);
        wickr_transport_ctx_process_tx_buffer(x->ctx, m);
        std::string k = key(x->ctx->tx_stream);
        if (k != last) { periods++; last = k; }
        if (x->out.size() == 1) {
            sent++;
            wickr_buffer_t *w = x->out[0]; x->out.clear();
            // iv follows the cipher id: cipher results are serialised as id | iv | tag | text
            fresh = seen.insert(k + std::string((char *)w->bytes + 10, 12)).second && fresh;
            wickr_transport_ctx_process_rx_buffer(y->ctx, w); wickr_buffer_destroy(&w);
            if (y->in.size() == 1 && wickr_buffer_is_equal(y->in[0], m, nullptr)) got++;
            for (auto &b : y->in) wickr_buffer_destroy_zero(&b);
            y->in.clear();
        }
        wickr_buffer_destroy(&m);
    }
    record_enc = true; x->sink = y->sink = false; x->cb.clear(); y->cb.clear();
    o.i("sent", sent).i("got", got).b("fresh", fresh).i("periods", periods);
    o.i("txk", btok(x->ctx->tx_stream->key->cipher_key->key_data)).i("rxk", btok(y->ctx->rx_stream->key->cipher_key->key_data));
}
// spoiled copies, wherever the parts of this kind of packet are
static bool is_hs(const wickr_buffer_t *b) { return (b->bytes[0] >> 4) == 0; }
CMD("tp_nomac", 3) { auto *b = wickr_buffer_copy(buf(a[2])); if (!b) { drop(a[1]); o.b("r", false); return; } b->bytes[0] &= 0xf0; o.b("r", put(a[1], b)); }
// another mac type: none, the other known one or an unknown one (a data packet too short for a signature would not parse with one)
CMD("tp_mtype", 4) {
    auto *b = wickr_buffer_copy(buf(a[2])); if (!b) { drop(a[1]); o.b("r", false); return; }
    static const int hs[] = {0, 1, 3, 4, 7, 8, 15}, da[] = {0, 3, 4, 5, 8, 14, 15};
    b->bytes[0] = (b->bytes[0] & 0xf0) | (is_hs(b) ? hs : da)[unum(a[3]) % 7]; o.b("r", put(a[1], b));
}
CMD("tp_flags", 4) { auto *b = wickr_buffer_copy(buf(a[2])); if (!b) { drop(a[1]); o.b("r", false); return; } if (is_hs(b)) b->bytes[2 + unum(a[3])] ^= 1 << unum(a[3]); else b->bytes[1] ^= 1 << (unum(a[3]) % 3); o.b("r", put(a[1], b)); }
CMD("tp_body", 4) { auto *b = wickr_buffer_copy(buf(a[2])); if (!b) { drop(a[1]); o.b("r", false); return; } size_t lo = is_hs(b) ? 10 : 9, hi = b->length - (is_hs(b) ? EC_CURVE_NIST_P521.signature_size : 0); b->bytes[lo + unum(a[3]) % (hi - lo)] ^= 0x15; o.b("r", put(a[1], b)); }
// ---- packets on their own -------------------------------------------------------------------
static RegType<wickr_transport_packet_t> rt_pk(wickr_transport_packet_destroy);
static void pkout(const wickr_transport_packet_t *p, Out &o) {
    o.b("ok", p != nullptr);
    if (!p) return;
    o.i("ty", p->meta.body_type).i("mac", p->meta.mac_type);
    if (p->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE) o.str("x", std::to_string(p->meta.body_meta.handshake.flags)).i("ver", p->meta.body_meta.handshake.protocol_version);
    else o.str("x", std::to_string(p->meta.body_meta.data.sequence_number)).i("ver", 0);
    o.i("body", btok(p->body)).b("signed", p->mac != nullptr).i("maclen", p->mac ? p->mac->length : 0);
}
// pk_make <pk> <h|d> <mac type> <flags or sequence number> <version> <body>
CMD("pk_make", 7) {
    wickr_transport_packet_meta_t m;
    if (a[2] == "h") { wickr_transport_packet_meta_initialize_handshake(&m, (uint8_t)unum(a[5]), (wickr_transport_packet_mac_type)num(a[3])); m.body_meta.handshake.flags = unum(a[4]); }
    else wickr_transport_packet_meta_initialize_data(&m, unum(a[4]), (wickr_transport_packet_mac_type)num(a[3]));
    wickr_buffer_t *b = wickr_buffer_copy(buf(a[6]));
    wickr_transport_packet_t *p = wickr_transport_packet_create(m, b);
    if (!p) wickr_buffer_destroy(&b);
    put(a[1], p); pkout(p, o);
}
CMD("pk_ser", 3) { wickr_buffer_t *b = wickr_transport_packet_serialize(get<wickr_transport_packet_t>(a[2])); o.b("ok", b != nullptr).i("len", b ? b->length : 0).str("hex", hex(b)).i("t", btok(b)); put(a[1], b); }
CMD("pk_parse", 3) { wickr_transport_packet_t *p = wickr_transport_packet_create_from_buffer(buf(a[2])); put(a[1], p); pkout(p, o); }
CMD("pk_copy", 3) { wickr_transport_packet_t *p = wickr_transport_packet_copy(get<wickr_transport_packet_t>(a[2])); put(a[1], p); pkout(p, o); }
CMD("pk_sign", 3) { auto *p = get<wickr_transport_packet_t>(a[1]); o.b("r", wickr_transport_packet_sign(p, &ENG, get<wickr_identity_chain_t>(a[2]))); o.i("mac", p->meta.mac_type).i("maclen", p->mac ? p->mac->length : 0); }
CMD("pk_verify", 3) { o.b("r", wickr_transport_packet_verify(get<wickr_transport_packet_t>(a[1]), &ENG, get<wickr_identity_chain_t>(a[2]))); }
CMD("pk_nib", 2) { auto *b = wickr_buffer_copy(buf(a[1])); int m = b->bytes[0] & 15; b->bytes[0] = (b->bytes[0] & 0xf0) | (m == 2 ? 1 : 2); o.b("r", put(a[1], b)); }
