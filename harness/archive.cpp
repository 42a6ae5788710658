// What was recorded from an earlier build: keys and objects in their encodings
#include "sut.hpp"
CMD("av_pri", 3) { auto *k = get<wickr_ec_key_t>(a[2]); o.b("r", put(a[1], k && k->pri_data ? wickr_buffer_copy(k->pri_data) : nullptr)); }
CMD("av_pub", 3) { auto *k = get<wickr_ec_key_t>(a[2]); o.b("r", put(a[1], k ? wickr_buffer_copy(k->pub_data) : nullptr)); }
CMD("av_key", 4) { auto *k = ENG.wickr_crypto_engine_ec_key_import(buf(a[2]), a[3] == "1"); o.b("r", put(a[1], k)); }
CMD("av_skey", 3) { auto *b = wickr_stream_key_serialize(get<wickr_stream_key_t>(a[2])); o.b("r", put(a[1], b)); }
CMD("av_skey_from", 3) { auto *k = wickr_stream_key_create_from_buffer(buf(a[2])); o.b("r", put(a[1], k)); }
CMD("av_chain", 3) { auto *c = get<wickr_identity_chain_t>(a[2]); o.b("r", put(a[1], c ? wickr_identity_chain_serialize(c) : nullptr)); }
CMD("av_chain_from", 3) { auto *c = wickr_identity_chain_create_from_buffer(buf(a[2]), &ENG); o.b("r", c).b("valid", c && wickr_identity_chain_validate(c, &ENG)); put(a[1], c); }
CMD("av_ss", 4) { auto *s = ENG.wickr_crypto_engine_gen_shared_secret(get<wickr_ec_key_t>(a[2]), get<wickr_ec_key_t>(a[3])); o.b("r", put(a[1], s)); }
// av_di <slot of text> <dev>: what a device publishes and keeps
CMD("av_di", 2) { auto *d = get<wickr_dev_info_t>(a[1]); o.str("hex", hex(d->msg_proto_id) + "|" + hex(d->srv_comm_id) + "|" + hex(d->system_salt)); }
CMD("av_evo", 3) {   // the keys of a stream after n packets were passed over
    auto *s = wickr_stream_ctx_copy(get<wickr_stream_ctx_t>(a[1])); wickr_buffer_t m = {4, (uint8_t *)"data"};
    auto *c = wickr_stream_ctx_encode(s, &m, nullptr, unum(a[2])); o.b("r", c).str("hex", c ? hex(s->key->cipher_key->key_data) : "");
    wickr_cipher_result_destroy(&c); wickr_stream_ctx_destroy(&s);
}
static void unset() { if (preset_key) wickr_ec_key_destroy(&preset_key); if (preset_sig) wickr_ecdsa_result_destroy(&preset_sig); }
static OnReset orst(unset);
// av_preset <ec key|-> <signature|->: what is generated and signed next
CMD("av_preset", 3) {
    unset();
    if (a[1] != "-") preset_key = wickr_ec_key_copy(get<wickr_ec_key_t>(a[1]));
    if (a[2] != "-") preset_sig = wickr_ecdsa_result_copy(get<wickr_ecdsa_result_t>(a[2]));
    o.b("r", true);
}
CMD("av_own", 3) { o.b("r", put(a[1], wickr_identity_chain_copy(get<wickr_ctx_t>(a[2])->id_chain))); }
