#include "sut.hpp"
static RegType<wickr_identity_t> rt1(wickr_identity_destroy);
static RegType<wickr_identity_chain_t> rt2(wickr_identity_chain_destroy);
static RegType<wickr_ec_key_t> rt3(wickr_ec_key_destroy);
static RegType<wickr_ecdsa_result_t> rt4(wickr_ecdsa_result_destroy);

CMD("ec_rand", 2) { o.b("r", put(a[1], ENG.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521))); }
// id_root <slot>: a fresh root identity
CMD("id_root", 2) {
    wickr_ec_key_t *k = ENG.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521);
    wickr_buffer_t *id = openssl_crypto_random(32);
    o.b("r", put(a[1], wickr_identity_create(IDENTITY_TYPE_ROOT, id, k, nullptr)));
}
// id_node <slot> <root>: a fresh node identity signed by the root
CMD("id_node", 3) {
    wickr_buffer_t *dev = openssl_crypto_random(32);
    wickr_identity_t *n = wickr_node_identity_gen(&ENG, get<wickr_identity_t>(a[2]), dev);
    wickr_buffer_destroy(&dev);
    o.b("r", put(a[1], n));
}
// chain <slot> <root> <node>: copies
CMD("chain", 4) {
    wickr_identity_t *r = wickr_identity_copy(get<wickr_identity_t>(a[2])), *n = wickr_identity_copy(get<wickr_identity_t>(a[3]));
    wickr_identity_chain_t *c = wickr_identity_chain_create(r, n);
    if (!c) { wickr_identity_destroy(&r); wickr_identity_destroy(&n); }
    o.b("r", put(a[1], c));
}
// chain_pub <dst> <src>: through serialisation, so without private parts
CMD("chain_pub", 3) {
    wickr_buffer_t *b = wickr_identity_chain_serialize(get<wickr_identity_chain_t>(a[2]));
    o.b("r", put(a[1], wickr_identity_chain_create_from_buffer(b, &ENG)));
    wickr_buffer_destroy(&b);
}
CMD("chain_ok", 2) { o.b("ok", wickr_identity_chain_validate(get<wickr_identity_chain_t>(a[1]), &ENG)); }
// ---- keys in several forms -------------------------------------------------------------------
static const wickr_ec_curve_t P521 = EC_CURVE_NIST_P521;
// ec_form <dst> <src> obj|pub|imported|copy|junk
CMD("ec_form", 4) {
    wickr_ec_key_t *k = get<wickr_ec_key_t>(a[2]), *n = nullptr;
    if (k) {
        if (a[3] == "pub") n = ENG.wickr_crypto_engine_ec_key_import(k->pub_data, false);
        else if (a[3] == "imported") n = ENG.wickr_crypto_engine_ec_key_import(k->pri_data, true);
        else n = wickr_ec_key_copy(k);
        if (n && a[3] == "junk") n->pub_data->bytes[n->pub_data->length / 2] ^= 0x11;
        if (n && a[3] == "pubonly") wickr_buffer_destroy_zero(&n->pri_data);
    }
    o.b("r", n != nullptr).i("pub", n ? btok(n->pub_data) : 0).b("pri", n && n->pri_data);
    put(a[1], n);
}
// ---- signatures and MACs ---------------------------------------------------------------------
typedef wickr_ecdsa_result_t Sig;
static const char *dig_name(int id) { return id == DIGEST_ID_SHA256 ? "256" : id == DIGEST_ID_SHA384 ? "384" : id == DIGEST_ID_SHA512 ? "512" : "?"; }
static void sigout(const Sig *s, Out &o) { o.b("r", s != nullptr); if (s) { o.str("dig", dig_name(s->digest_mode.digest_id)).i("curve", s->curve.identifier); } }
// lengths of the two numbers of a signature
static std::pair<size_t, size_t> halves(const Sig *s) {
    const uint8_t *b = s->sig_data->bytes; size_t i = b[1] & 0x80 ? 3 : 2, r = b[i + 1], t = b[i + 3 + r];
    auto cut = [&](size_t at, size_t n) { while (n && !b[at]) at++, n--; return n; };
    return {cut(i + 2, r), cut(i + 4 + r, t)};
}
// sg_sign <dst> <key> <data> <digest> [any | short r | short s]: signed again until the number is at least two bytes short
CMD("sg_sign", 5) {
    Sig *s = nullptr; std::string w = a.size() > 5 ? a[5] : "any"; bool ok = false;
    for (int i = 0; i < 20000 && !ok; i++) {
        if (s) wickr_ecdsa_result_destroy(&s);
        s = ENG.wickr_crypto_engine_ec_sign(get<wickr_ec_key_t>(a[2]), buf(a[3]), digest_of(a[4]));
        ok = !s || w == "any" || s->sig_data->length < 8 || (w == "r" ? halves(s).first : halves(s).second) <= 64;
    }
    sigout(s, o); put(a[1], s);
}
CMD("sg_ser", 3) { auto *b = wickr_ecdsa_result_serialize(get<Sig>(a[2])); o.b("r", b).i("len", b ? b->length : -1).i("pad", b ? b->bytes[1] : -1); put(a[1], b); }
CMD("sg_from", 3) { Sig *s = wickr_ecdsa_result_create_from_buffer(buf(a[2])); sigout(s, o); put(a[1], s); }
CMD("sg_toraw", 3) { auto *b = ENG.wickr_crypto_engine_ecdsa_to_raw(get<Sig>(a[2])); o.b("r", b).i("len", b ? b->length : -1); put(a[1], b); }
CMD("sg_fromraw", 4) { Sig *s = ENG.wickr_crypto_engine_ecdsa_from_raw(P521, digest_of(a[3]), buf(a[2])); sigout(s, o); put(a[1], s); }
CMD("sg_copy", 3) { Sig *s = wickr_ecdsa_result_copy(get<Sig>(a[2])); sigout(s, o); put(a[1], s); }
// sg_mut <slot> flip <pos> <mask> | short <n> | ext | dig <digest>
CMD("sg_mut", 3) {
    Sig *s = get<Sig>(a[1]); if (!s) { o.b("r", false); return; }
    std::string v((char *)s->sig_data->bytes, s->sig_data->length);
    if (a[2] == "flip") { long long p = num(a[3]); v[(size_t)p % v.size()] ^= (char)num(a[4]); }
    else if (a[2] == "short") v.resize(v.size() > (size_t)num(a[3]) ? v.size() - (size_t)num(a[3]) : 1);
    else if (a[2] == "ext") v += '\1';
    else if (a[2] == "dig") s->digest_mode = digest_of(a[3]);
    wickr_buffer_destroy(&s->sig_data); s->sig_data = mkbuf(v);
    o.b("r", true);
}
CMD("sg_verify", 4) { o.b("r", ENG.wickr_crypto_engine_ec_verify(get<Sig>(a[1]), get<wickr_ec_key_t>(a[2]), buf(a[3]))); }
CMD("hm_make", 5) { auto *b = ENG.wickr_crypto_engine_hmac_create(buf(a[3]), buf(a[2]), digest_of(a[4])); o.b("r", b).i("len", b ? b->length * 8 : -1); put(a[1], b); }
CMD("hm_verify", 5) { o.b("r", ENG.wickr_crypto_engine_hmac_verify(buf(a[3]), buf(a[2]), digest_of(a[4]), buf(a[1]))); }
// ---- nodes -------------------------------------------------------------------------------------
static RegType<wickr_node_t> rt_nd(wickr_node_destroy);
static RegType<wickr_ephemeral_keypair_t> rt_ek(wickr_ephemeral_keypair_destroy);
// an identifier that no failing primitive keeps from being made
static wickr_buffer_t *somename(size_t n) { wickr_buffer_t *b = wickr_buffer_create_empty(n); for (size_t i = 0; i < n; i++) b->bytes[i] = (uint8_t)rand(); return b; }
static wickr_identity_t *mkroot(const std::string &k) { return wickr_identity_create(IDENTITY_TYPE_ROOT, somename(32), wickr_ec_key_copy(get<wickr_ec_key_t>(k)), nullptr); }
static wickr_identity_t *mknode(const std::string &k, const std::string &s) { return wickr_identity_create(IDENTITY_TYPE_NODE, somename(32), wickr_ec_key_copy(get<wickr_ec_key_t>(k)), wickr_ecdsa_result_copy(get<Sig>(s))); }
static wickr_ephemeral_keypair_t *mkpair(const std::string &k, const std::string &s) { return wickr_ephemeral_keypair_create(7, wickr_ec_key_copy(get<wickr_ec_key_t>(k)), wickr_ecdsa_result_copy(get<Sig>(s))); }
CMD("nd_make", 7) {
    wickr_identity_chain_t *c = wickr_identity_chain_create(mkroot(a[2]), mknode(a[3], a[4]));
    o.b("r", put(a[1], wickr_node_create(somename(32), c, a[5] == "-" ? nullptr : mkpair(a[5], a[6]))));
}
CMD("nd_set", 3) {
    auto *n = get<wickr_node_t>(a[1]); auto *c = n->id_chain; const std::string &w = a[2];
    bool r = true;
    if (w == "root") { wickr_identity_destroy(&c->root); c->root = mkroot(a[3]); }
    else if (w == "rootkey") { wickr_ec_key_destroy(&c->root->sig_key); c->root->sig_key = wickr_ec_key_copy(get<wickr_ec_key_t>(a[3])); }
    else if (w == "key") { wickr_ec_key_destroy(&c->node->sig_key); c->node->sig_key = wickr_ec_key_copy(get<wickr_ec_key_t>(a[3])); }
    else if (w == "sig") { wickr_ecdsa_result_destroy(&c->node->signature); c->node->signature = wickr_ecdsa_result_copy(get<Sig>(a[3])); }
    else if (w == "node") { wickr_identity_destroy(&c->node); c->node = mknode(a[3], a[4]); }
    else if (w == "chain") {
        wickr_identity_chain_t *x = wickr_identity_chain_create(mkroot(a[3]), mknode(a[4], a[5]));
        if (num(a[6])) wickr_identity_chain_validate(x, &ENG);
        wickr_identity_chain_destroy(&n->id_chain); n->id_chain = x;
    }
    else if (w == "rotate") { auto *k = mkpair(a[3], a[4]); bool cp = num(a[5]); r = wickr_node_rotate_keypair(n, k, cp); if (cp) wickr_ephemeral_keypair_destroy(&k); }
    else if (w == "ekey") { wickr_ec_key_destroy(&n->ephemeral_keypair->ec_key); n->ephemeral_keypair->ec_key = wickr_ec_key_copy(get<wickr_ec_key_t>(a[3])); }
    else if (w == "esig") { wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); n->ephemeral_keypair->signature = wickr_ecdsa_result_copy(get<Sig>(a[3])); }
    else if (w == "drop") wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair);
    else die("nd_set " + w);
    o.b("r", r);
    if (w == "rotate") o.str("st", n->status == NODE_STATUS_UNKNOWN ? "unknown" : n->status == NODE_STATUS_VALID ? "yes" : "no");
}
// nd_grow <node> <root key> root|pubonly|node <length of its name, 0 for none>: the node's identity becomes one generated from a root
CMD("nd_grow", 5) {
    auto *n = get<wickr_node_t>(a[1]); auto *k = wickr_ec_key_copy(get<wickr_ec_key_t>(a[2]));
    if (a[3] == "pubonly") wickr_buffer_destroy_zero(&k->pri_data);
    auto *maker = wickr_identity_create(a[3] == "node" ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT, somename(32), k, nullptr);
    wickr_buffer_t *id = num(a[4]) ? somename(num(a[4])) : nullptr;
    auto *g = wickr_node_identity_gen(&ENG, maker, id);
    o.b("r", g);
    if (g) {
        o.b("id", id ? wickr_buffer_is_equal(id, g->identifier, nullptr) : g->identifier && g->identifier->length == 32).b("sig", g->signature != nullptr && g->type == IDENTITY_TYPE_NODE).b("pri", g->sig_key->pri_data);
        wickr_identity_destroy(&n->id_chain->node); n->id_chain->node = g;
    }
    wickr_buffer_destroy(&id); wickr_identity_destroy(&maker);
}
// nd_fresh <node> <node key> <pri>: the node's ephemeral pair becomes one generated for a node identity
CMD("nd_fresh", 4) {
    auto *n = get<wickr_node_t>(a[1]); auto *i = mknode(a[2], "-");
    if (!num(a[3])) wickr_buffer_destroy_zero(&i->sig_key->pri_data);
    auto *p = wickr_ephemeral_keypair_generate_identity(&ENG, 77, i);
    o.b("r", p);
    if (p) { o.b("id", p->identifier == 77).b("sig", p->signature != nullptr).b("pri", p->ec_key->pri_data); if (!wickr_node_rotate_keypair(n, p, false)) die("nd_fresh"); }
    wickr_identity_destroy(&i);
}
// what the published status says
static const char *shown(int s, int u, int v) { return s == u ? "unknown" : s == v ? "yes" : "no"; }
static const char *cst(const wickr_identity_chain_t *c) { return shown(c->status, IDENTITY_CHAIN_STATUS_UNKNOWN, IDENTITY_CHAIN_STATUS_VALID); }
static const char *nst(const wickr_node_t *n) { return shown(n->status, NODE_STATUS_UNKNOWN, NODE_STATUS_VALID); }
CMD("nd_chain", 2) { auto *c = get<wickr_node_t>(a[1])->id_chain; o.b("r", wickr_identity_chain_validate(c, &ENG)).str("st", cst(c)); }
CMD("nd_check", 2) { auto *n = get<wickr_node_t>(a[1]); o.b("r", wickr_node_verify_signature_chain(n, &ENG)).str("st", nst(n)); }
CMD("nd_owner", 3) { auto *i = mknode(a[2], "-"); o.b("r", wickr_ephemeral_keypair_verify_owner(get<wickr_node_t>(a[1])->ephemeral_keypair, &ENG, i)); wickr_identity_destroy(&i); }
CMD("nd_poke", 3) { auto *n = get<wickr_node_t>(a[1]); n->id_chain->status = num(a[2]) ? IDENTITY_CHAIN_STATUS_VALID : IDENTITY_CHAIN_STATUS_INVALID; n->status = num(a[2]) ? NODE_STATUS_VALID : NODE_STATUS_INVALID; o.b("r", true); }
CMD("nd_copy", 2) { auto *m = get<wickr_node_t>(a[1]), *n = wickr_node_copy(m); o.b("r", n).b("st", n && n->status == m->status && n->id_chain->status == m->id_chain->status); if (n) put(a[1], n); }
CMD("nd_dup", 3) { o.b("r", put(a[1], wickr_node_copy(get<wickr_node_t>(a[2])))); }
CMD("nd_round", 2) {
    wickr_buffer_t *b = wickr_node_serialize(get<wickr_node_t>(a[1])); wickr_node_t *n = wickr_node_create_from_buffer(b, &ENG);
    wickr_buffer_destroy(&b);
    o.b("r", n);
    if (n) { o.b("pri", n->id_chain->root->sig_key->pri_data || n->id_chain->node->sig_key->pri_data || (n->ephemeral_keypair && n->ephemeral_keypair->ec_key->pri_data)).b("st", n->status == NODE_STATUS_UNKNOWN && n->id_chain->status == IDENTITY_CHAIN_STATUS_UNKNOWN); put(a[1], n); }
}
// sg_key <dst> <by> <over key> <digest>: a signature over a public key
CMD("sg_key", 5) { Sig *s = ENG.wickr_crypto_engine_ec_sign(get<wickr_ec_key_t>(a[2]), get<wickr_ec_key_t>(a[3])->pub_data, digest_of(a[4])); sigout(s, o); put(a[1], s); }
