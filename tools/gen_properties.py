#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The list below is the source of truth for the prose."""
import json, os
S = "src/wickrcrypto/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S+f for f in files],
                               mechanism=[dict(name=n, where=S+w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=S+w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- messaging
p("M01", "Only the addressed devices can open a message, and they get what was sent",
  "A message packet encoded for a set of recipient nodes decodes, on the device and with the ephemeral private key of each of those recipients, to exactly the body, content type, channel tag and ephemerality settings the sender supplied. Nobody else can decode it: not a node that was not addressed, not an addressed identity on another device, not an addressed device holding another ephemeral key.",
  ["inputs", "configurations", "histories"],
  "all recipient sets, senders, supported packet versions, ciphers, payload shapes, and all combinations of decoding device, ephemeral key and claimed identities",
  "The Java suite covers payload serialisation only; no passing test encodes and decodes a packet at all, and the exclusivity half quantifies over every wrong holder.",
  ["protocol.c", "key_exchange.c", "wickr_ctx.c", "payload.c", "ecdh_cipher_ctx.c"],
  [("per recipient key exchange", "protocol.c: wickr_packet_create_from_components / wickr_key_exchange_create_with_packet_key"),
   ("exchange lookup by device id", "key_exchange.c: wickr_key_exchange_set_find"),
   ("decode", "protocol.c: wickr_parse_result_from_packet, wickr_decode_result_from_parse_result")],
  observe=["return values of context/packet encode and decode"])
p("M02", "A message not signed intact by the claimed sender never opens",
  "Parsing a packet against a claimed sender reports a valid signature only if that sender's identity signed exactly those content bytes for the sender's curve. Any change to the signed content, any damage to the signature, any other claimed sender, and any splice of two packets' content and signature yields a signature-failure verdict (or a refusal to parse) and never a decoded payload.",
  ["inputs", "histories"],
  "all packets produced by any set of users, all byte modifications, splices and re-attributions of them",
  "No running test parses a packet; unforgeability quantifies over every modification and every claimed sender.",
  ["protocol.c", "ecdsa.c", "identity.c", "openssl_suite.c"],
  [("signature check before decode", "protocol.c: wickr_parse_result_from_packet"),
   ("packet splitting", "protocol.c: wickr_packet_create_from_buffer")],
  observe=["parse status, error code and presence of a decode result"])
p("M03", "Message keys are bound to protocol version, identities and device",
  "A packet's payload key can be recovered only when the receiver derives it for the same protocol version, the same recipient device, and, from version 3 on, the same sender and recipient root identities that the sender used. Re-labelling a packet with another version or attributing it to another identity makes key recovery fail, never produce a different plaintext.",
  ["inputs", "configurations"],
  "all pairs of (encoding context, decoding context) that differ in any of version, sender, recipient, device",
  "The domain-separation inputs are only visible when encode and decode disagree on one of them; existing tests never do that, and a change that drops an input from both sides still round-trips.",
  ["protocol.c", "ecdh_cipher_ctx.c", "kdf.c"],
  [("versioned derivation parameters", "protocol.c: KDF info / digest selection per version"),
   ("ECDH key agreement", "ecdh_cipher_ctx.c")],
  observe=["decode outcome under re-labelled version/identity/device; HKDF inputs at the crypto engine boundary"])
p("M04", "Encoding refuses untrusted recipients and unsupported parameters",
  "No packet is ever produced when there are no recipients, when any single recipient's identity chain or ephemeral key signature does not verify, or when the protocol version is outside the supported range; and a packet whose header or payload was enciphered without authentication never opens. When all recipients verify, a packet is produced whose recipients are exactly those requested.",
  ["inputs", "configurations"],
  "all recipient lists with any mixture of valid and invalid nodes at any position, all versions and ciphers",
  "No running test encodes a packet; a check that only validates the first or last recipient passes every sampled case.",
  ["protocol.c", "wickr_ctx.c", "node.c", "identity.c"],
  [("recipient verification loop", "protocol.c / wickr_ctx.c: node status checks before encoding"),
   ("version range", "protocol.c: OLDEST_PACKET_VERSION..CURRENT_PACKET_VERSION")],
  observe=["NULL / non-NULL result of encode, recipient set found by parsing"])
p("M05", "Packet processing reports a precise and fail-safe outcome",
  "Every way of processing a packet ends in exactly one documented outcome (success, refused as no packet, signature failure, corrupt header or payload framing, not a recipient, failure to recover the payload with the key offered), the outcome reported is the one of the first stage that failed, and plaintext or a packet key is present only with the success outcome.",
  ["inputs"],
  "all packets honest, tampered at any stage, re-signed by a malicious sender with malformed content, or offered to the wrong party",
  "Malformed but correctly signed content is produced by no test; the lattice of failure stages is only visible to an adversarial enumeration.",
  ["protocol.c", "wickr_ctx.c"],
  [("staged parse/decode", "protocol.c: wickr_parse_result_from_packet, wickr_decode_result_from_parse_result")],
  observe=["parse/decode result error, signature status, presence of key/payload"])
p("M06", "Every encoded message uses fresh keys and nonces",
  "No two packets, and no two recipients of one packet, are ever protected under the same (key, nonce) pair; two packets of identical content from the same sender to the same recipients share no payload key, exchange key pair, nonce or ciphertext.",
  ["histories"],
  "all sequences of encodes with any mixture of identical and different inputs",
  "A repeated nonce or key decrypts correctly, so round-trip tests cannot see it; it is a property of pairs of operations in a history.",
  ["protocol.c", "wickr_ctx.c", "key_exchange.c", "openssl_suite.c"],
  [("random payload key and exchange key", "wickr_ctx.c / protocol.c: packet key and exchange key generation"),
   ("random IV", "openssl_suite.c: openssl_aes256_encrypt")],
  observe=["(key, iv) pairs at the crypto engine boundary and in emitted packets"])

# ---------------------------------------------------------------- streams
p("S01", "Stream sequence numbers only move forward",
  "A stream encodes or decodes a packet only if its sequence number is strictly greater than that of every packet it has already processed, and only in the direction the stream was created for; so no ciphertext is ever accepted twice and none is accepted after a later one.",
  ["histories", "inputs"],
  "all interleavings of encode and decode calls with any sequence numbers, replays, reorderings and gaps",
  "No running test touches streams; replay safety is a statement about every history, not a sampled one.",
  ["stream_ctx.c"],
  [("sequence check", "stream_ctx.c: wickr_stream_ctx_encode / wickr_stream_ctx_decode")],
  [("last sequence", "highest sequence number processed", "stream_ctx.c")],
  ["return values of encode/decode"])
p("S02", "Stream peers evolve keys in lock step across any gaps",
  "Encoder and decoder created from the same key agree on the cipher key for every sequence number, whatever packets were skipped, so every packet that arrives in increasing order decodes to what was sent. The key changes exactly when a multiple of the configured packet count is crossed, and never returns to an earlier value.",
  ["histories", "configurations"],
  "all evolution periods and all increasing subsequences of the sent packets, including jumps over several periods",
  "Off-by-one and gap errors cancel out when both ends see every packet, which is all a sampled test exercises.",
  ["stream_ctx.c", "stream_key.c"],
  [("key evolution", "stream_ctx.c: __wickr_stream_ctx_evolove_key_material")],
  [("stream key", "current cipher and evolution key", "stream_ctx.c")],
  ["decode results and key material after each call"])
p("S03", "A stream never reuses a nonce under one key",
  "Over the whole life of an encoding stream no two packets are encrypted with the same (key, nonce) pair, also when calls fail in between, and streams created independently never share nonces.",
  ["histories"],
  "all histories of successful and refused encodes on any number of streams",
  "Nonce reuse is invisible to round-trip tests; it needs a history-wide uniqueness monitor.",
  ["stream_iv.c", "stream_ctx.c"],
  [("nonce generator", "stream_iv.c: wickr_stream_iv_generate")],
  [("generation counter", "number of nonces drawn", "stream_iv.c")],
  ["nonces of returned ciphertexts with the key in force"])
p("S04", "Forged or corrupt packets do not disturb a stream",
  "A packet that fails authentication, because its content, additional data, nonce or tag was changed or because it was made for another key or key period, yields no data and leaves the decoding stream as it was, so every genuine packet that was acceptable before is still accepted afterwards.",
  ["histories", "inputs"],
  "all interleavings of forged and genuine packets",
  "Needs an adversary that injects between genuine packets; no running test decodes a stream packet.",
  ["stream_ctx.c"],
  [("commit on success", "stream_ctx.c: wickr_stream_ctx_decode")],
  [("last sequence and key", "decoder state", "stream_ctx.c")],
  ["decode results of genuine packets after forged ones"])
p("S05", "Shared and copied streams have independent, correctly counted lifetimes",
  "A stream stays usable until it has been released once for its creation and once for every extra reference taken, and is gone after that. A copy behaves exactly as the original would have from the moment of copying, and neither is affected by what is later done to the other.",
  ["histories"],
  "all sequences of reference, release, copy and use",
  "Lifetime errors show only in particular multi-step sequences.",
  ["stream_ctx.c", "stream_key.c", "stream_iv.c"],
  [("reference count", "stream_ctx.c: wickr_stream_ctx_ref_up / wickr_stream_ctx_destroy"),
   ("deep copy", "stream_ctx.c: wickr_stream_ctx_copy")],
  [("reference count", "outstanding references", "stream_ctx.c")],
  ["handle validity and behaviour after each step"])

# ---------------------------------------------------------------- transport
p("T01", "No connection becomes active with an unauthenticated peer",
  "An endpoint reports its connection active only after the peer has presented a verifiable identity that is the pinned identity, or, when none is pinned, one that the application has approved for this very handshake. A responder reveals its handshake response only after that approval.",
  ["schedules", "histories", "inputs"],
  "all schedules of start, delivery, approval and rejection, with attackers owning identities of their own, replaying and modifying handshake packets",
  "No running test touches transports; the property ranges over attacker schedules and asynchronous approval.",
  ["transport_ctx.c", "transport_handshake.c"],
  [("identity gate", "transport_handshake.c: wickr_transport_handshake_process / wickr_transport_handshake_verify_identity"),
   ("pin", "transport_handshake.c: remote identity comparison")],
  [("handshake status", "stage of the handshake", "transport_handshake.c")],
  ["status callbacks, tx callback, identity verification callback"])
p("T02", "Active peers hold matching keys derived from one unmodified handshake",
  "If both endpoints of one handshake become active after seeing the same handshake packets then what each sends the other can read, in both directions with different keys. If either handshake packet was modified, re-attributed or mixed from two handshakes, the two endpoints never exchange readable data.",
  ["schedules", "inputs"],
  "all deliveries, modifications, and mixtures of packets of concurrent handshakes between any identities",
  "Transcript binding is only observable under an active man in the middle.",
  ["transport_handshake.c", "transport_handshake_priv.c", "transport_root_key.c"],
  [("transcript-salted key derivation", "transport_handshake.c / transport_root_key.c")],
  [("transcript", "handshake packets seen", "transport_handshake.c")],
  ["delivered data on both sides after every handshake schedule"])
p("T03", "Data arrives unmodified, in order and at most once, or the connection errors",
  "Every buffer an endpoint hands up was sent by its peer in this connection, is handed up at most once and in the order sent. Anything else that arrives (replayed, re-ordered backwards, modified, reflected, from another connection, or a handshake packet) is never handed up and puts the endpoint in the error state.",
  ["schedules", "inputs", "histories"],
  "all schedules of sends, deliveries, drops, replays, reorderings, reflections, modifications and cross-connection injections",
  "Quantifies over network schedules with an adversary.",
  ["transport_ctx.c", "transport_packet.c", "stream_ctx.c"],
  [("sequence numbers authenticated as additional data", "transport_ctx.c: __wickr_transport_ctx_decode_pkt"),
   ("directional keys", "transport_root_key.c")],
  [("stream sequence", "last accepted", "stream_ctx.c")],
  ["rx callback contents versus peer's sends"])
p("T04", "The error state is final",
  "Once an endpoint has reported an error it never again reports another state, hands up data or emits a packet, whatever is received, sent, started, approved or rejected afterwards.",
  ["histories", "schedules"],
  "all continuations of all histories that reach the error state, including approvals that arrive late",
  "A statement about all continuations; late asynchronous approvals are exercised by no test.",
  ["transport_ctx.c"],
  [("status updates", "transport_ctx.c: __wickr_transport_ctx_update_status / process functions")],
  [("status", "connection status", "transport_ctx.c")],
  ["status, callbacks"])
p("T05", "The connection lifecycle follows its documented states, events and errors",
  "An endpoint only moves none to initial-handshake or active, initial-handshake to active, and any state to error; every change is reported by exactly one state notification carrying the new state, and every misuse or failure (double start, sending while not active, undecodable input, failed or rejected handshake) ends in the error state with the error code documented for it rather than being silently ignored.",
  ["histories", "inputs"],
  "all sequences of API calls and inputs on both roles",
  "The combination of state, role, pinning and event is larger than any sampled test set.",
  ["transport_ctx.c", "transport_handshake.c"],
  [("status machine", "transport_ctx.c"), ("handshake status machine", "transport_handshake.c")],
  [("status and error", "connection status and last error", "transport_ctx.c")],
  ["status, last error, on-state callbacks"])
p("T06", "Connections are cryptographically separate sessions",
  "Every handshake uses new ephemeral and stream keys, so no two connections, not even between the same two identities, ever share a (key, nonce) pair, and neither handshake nor data packets recorded in one connection lead to readable data in another. The key evolution period in force is the one the responder configured.",
  ["histories", "schedules"],
  "all histories of several connections between the same identities with replay across them",
  "A reused ephemeral or session key still works in every single-session test.",
  ["transport_handshake.c", "transport_root_key.c", "transport_ctx.c"],
  [("fresh ephemeral and root key", "transport_handshake.c")],
  observe=["(key, iv) pairs at the engine boundary, data delivery after cross-session replay"])
p("T07", "Transport packets parse only in their exact wire format",
  "Serialising and parsing a transport packet returns the same type, authentication kind, flags, sequence number and body for all values. Input that is truncated, of unknown version or type, or whose authentication part is missing is refused, and a handshake packet verifies only against the identity that signed exactly its type, flags and body.",
  ["inputs"],
  "all header values, all bodies and all truncations or byte changes of valid packets",
  "Only exhaustive header enumeration and adversarial modification reach the corners (64-bit sequence numbers, flag bits, signature padding).",
  ["transport_packet.c"],
  [("meta and packet codec", "transport_packet.c"), ("signing", "transport_packet.c: wickr_transport_packet_sign / verify")],
  observe=["parsed fields, verification result"])

# ---------------------------------------------------------------- identities
p("I01", "A chain verifies exactly when the root identity signed the node identity",
  "An identity chain reports valid if and only if its node identity's public key carries a correct signature by its root identity's key, whatever sequence of checks, copies, serialisations or replacements of its parts preceded the question. Missing, swapped, tampered or re-signed parts are reported invalid.",
  ["histories", "inputs"],
  "all ways of assembling chains from parts of genuine and attacker chains, and all histories of checks and in-place replacements",
  "Verdicts are cached, so a wrong answer needs a history check-modify-check; tests check once.",
  ["identity.c", "identity_priv.c"],
  [("chain check and cache", "identity.c: wickr_identity_chain_validate")],
  [("cached verdict", "digest of the verified parts with the verdict", "identity_priv.c")],
  ["validation results"])
p("I02", "A node verifies exactly when its chain and ephemeral key verify",
  "A node reports valid if and only if its identity chain is valid and its ephemeral public key carries a correct signature by that chain's node identity, whatever sequence of checks, copies and replacements of chain, key or signature preceded the question.",
  ["histories", "inputs"],
  "all assemblies of nodes from genuine and attacker parts and all histories of checks and replacements, including rotation of ephemeral keys",
  "As for chains: cache staleness needs a check, a replacement and a second check.",
  ["node.c", "node_priv.c", "ephemeral_keypair.c"],
  [("node check and cache", "node.c: wickr_node_verify_signature_chain")],
  [("cached verdict", "digest of verified parts", "node_priv.c")],
  ["validation results"])
p("I03", "Public forms never carry private keys",
  "Nothing that is meant to be published (serialised identities, chains, nodes and ephemeral keys, fingerprints, message packets, transport packets and identifiers) contains any private signing key, private ephemeral key, storage key or recovery key of its owner; objects rebuilt from public forms hold no private material.",
  ["inputs", "histories"],
  "all objects with and without private parts, in every publishing operation of the library",
  "Leaks do not break functionality, so functional tests pass; the property is about everything the library emits.",
  ["identity.c", "node.c", "ephemeral_keypair.c", "eckey.c", "transport_handshake.c", "protocol.c", "wickr_ctx.c"],
  [("public-only serialisation", "identity_priv.c / node_priv.c / ephemeral_keypair_priv.c to-proto functions")],
  observe=["search of all emitted bytes for the known secrets"])
p("I04", "Signatures and MACs verify exactly for the genuine key, data and algorithm",
  "A signature or keyed digest verifies if and only if it was made with the matching private key or MAC key over exactly the presented data with exactly the recorded algorithm; it survives conversion through each of its encodings, and every modified, truncated or mismatched combination is refused.",
  ["inputs"],
  "all combinations of keys, data, digests and modified signatures",
  "Sampled tests check one wrong key or none; acceptance is a statement about all mismatches.",
  ["ecdsa.c", "openssl_suite.c", "identity.c", "eckey.c"],
  [("sign/verify", "openssl_suite.c: openssl_ec_sign, openssl_ec_verify, openssl_hmac_verify"), ("encodings", "ecdsa.c, openssl_suite.c: raw conversion")],
  observe=["verification results"])

# ---------------------------------------------------------------- contexts
p("C01", "Local storage is bound to the device, remote storage to the account",
  "Data ciphered for local storage can be read by every context generated from the same account's root keys on the same device and by no other device or account; data ciphered for remote storage can be read by every context of the same account on any device and by no other account. (A context restored from its own exported form keeps the storage keys it was exported with, wherever it is restored.) Modified stored data is refused.",
  ["configurations", "histories"],
  "all accounts, devices, contexts derived in any order, and all cross readings",
  "The Java test uses a single context; isolation is a statement about pairs of contexts.",
  ["wickr_ctx.c", "storage.c", "root_keys.c", "devinfo.c"],
  [("storage key derivation", "root_keys.c / wickr_ctx.c: storage keys from root keys and device salt")],
  observe=["decipher outcomes across contexts"])
p("C02", "Recovery restores the same account or nothing",
  "A recovery export opened with its recovery key yields exactly the account's root identity and storage roots, so contexts generated from it interoperate with the original account and have its root identity. With any other recovery key, or if the export was modified in any byte, recovery yields nothing.",
  ["inputs", "histories"],
  "all accounts, recovery keys, modifications and chains of repeated recovery",
  "Tests sample one round trip; the negative half quantifies over all keys and modifications.",
  ["wickr_ctx.c", "root_keys.c"],
  [("recovery export/import", "wickr_ctx.c: wickr_ctx_gen_result export and import functions")],
  observe=["imported root keys, generated contexts"])
p("C03", "Passphrase exports open only with the passphrase",
  "Everything exported under a passphrase (recovery key, storage keys, whole context) is restored exactly by that passphrase and by no other, is refused after any modification, and is refused outright if it names an unauthenticated cipher or a password function other than the approved ones. Exporting twice never produces the same salt, nonce or ciphertext.",
  ["inputs", "histories"],
  "all exported objects, passphrases, modifications and header substitutions",
  "The password code is not even built in the test configuration.",
  ["kdf.c", "cipher.c", "wickr_ctx.c", "storage.c"],
  [("passphrase cipher", "cipher.c: wickr_kdf_cipher / wickr_kdf_decipher")],
  observe=["restored keys, refusals"])
p("C04", "A context is restored intact or not at all",
  "A context restored from its serialised or passphrase-exported form has the same identities, private keys and storage keys, reads everything the original could read and is accepted wherever the original was. Restored for another device it still cannot open messages addressed to the original device. Nothing is restored from truncated or modified exports.",
  ["histories", "inputs"],
  "all contexts, export and import in any order on any device, all modifications and truncations",
  "Tests sample one round trip.",
  ["wickr_ctx.c"],
  [("context codec", "wickr_ctx.c: wickr_ctx_serialize / wickr_ctx_create_from_buffer / import-export")],
  observe=["field equality and cross-behaviour of restored context"])
p("C05", "Every device of an account shares its root identity and nothing device-private",
  "All contexts generated from the same root keys have that root identity and valid identity chains for their own, distinct node identities; key pairs a context generates verify as signed by that context's node identity and no other; no context is ever generated around a root key that cannot sign for it.",
  ["histories", "configurations"],
  "all sequences of account creation, adding devices and generating key pairs, and all mismatched assemblies",
  "Tests create a single context with consistent inputs.",
  ["wickr_ctx.c", "root_keys.c", "identity.c", "devinfo.c"],
  [("context generation", "wickr_ctx.c: wickr_ctx_gen_*"), ("creation check", "wickr_ctx.c: wickr_ctx_create")],
  observe=["identities, chain validity, ephemeral key validity"])

# ---------------------------------------------------------------- crypto
p("K01", "Authenticated decryption returns the original data or nothing",
  "Deciphering with an authenticated cipher returns data if and only if key, nonce, ciphertext, additional data and tag are exactly those of one encryption, and then exactly the data encrypted, also through serialisation. Additional data is refused with ciphers that cannot authenticate it, and when only authenticated ciphers are allowed an unauthenticated one is always refused.",
  ["inputs"],
  "all plaintexts, additional data, keys, cipher types, and every single-field substitution or modification",
  "The Java test samples round trips; refusal is universal.",
  ["openssl_suite.c", "cipher.c", "crypto_engine.c"],
  [("AEAD", "openssl_suite.c: openssl_aes256_encrypt / openssl_aes256_decrypt"), ("codec", "cipher.c")],
  observe=["decipher outcomes"])
p("K02", "Key derivation is a function of exactly its declared inputs",
  "Deriving a key again from the same secret and stored parameters (also after serialising them) gives the same key; changing the secret, the salt, the context information or the algorithm, including its cost, gives a different one; unsupported or malformed parameters give nothing. Fresh derivations pick a fresh salt. (The bcrypt algorithms by design read only the first 72 bytes of a secret, up to a zero byte.)",
  ["inputs", "configurations"],
  "all algorithms and costs, secrets, salts, infos and parameter encodings",
  "Not built in the test configuration; the 'different' half quantifies over all pairs.",
  ["kdf.c", "openssl_suite.c"],
  [("derivation and metadata codec", "kdf.c")],
  observe=["derived keys, parameter round trips"])
p("K03", "Key agreement encryption opens only for the intended peer and context",
  "Data ciphered between a local and a remote key pair under given derivation parameters is deciphered by the remote holder with the same parameters and peer key, and by nobody else: not with another key pair, another claimed peer, other salt, information or digest, or after modification. The agreed secret is the same computed from either side.",
  ["inputs", "configurations"],
  "all key pairs on both sides, parameters and modifications",
  "The Java ECDH test checks one agreement; separation is universal.",
  ["ecdh_cipher_ctx.c", "openssl_suite.c", "kdf.c"],
  [("ECDH cipher", "ecdh_cipher_ctx.c")],
  observe=["decipher outcomes"])
p("K04", "File encryption replaces its destination completely or not at all",
  "When file encryption or decryption reports success the destination holds the complete result, and a file encrypted with a key decrypts with it to identical content, for every size. When it reports failure (wrong key, modified, truncated or extended file, disallowed cipher, unreadable source, write failure at any point) the destination is exactly as it was before, no plaintext or temporary file remains, and no failure is reported as success.",
  ["inputs", "fault_sequences", "crash_points"],
  "all file sizes around block boundaries, all modifications, and a read or write failure at any point",
  "Tests run one successful encryption and decryption on a healthy disk.",
  ["openssl_file_suite.c", "openssl_suite.c"],
  [("temporary file and rename", "openssl_file_suite.c"), ("streamed AEAD", "openssl_suite.c: openssl_encrypt_file / openssl_decrypt_file")],
  observe=["return values and the scratch directory's content"])

# ---------------------------------------------------------------- data
p("D01", "Serialised objects restore to equals, and malformed input is refused",
  "Every serialisable object (keys, signatures, ciphertexts, packet metadata, payloads, key exchanges, nodes, identities, root and storage keys, stream keys, packets, encoder results, contexts) deserialises to an object equal in every published field. Any truncation and any ill-formed input is either refused or yields a well-formed object whose encoding, if it has one, restores consistently, and is never a crash.",
  ["inputs"],
  "all objects over all optional-field combinations, all truncations and byte corruptions of their encodings",
  "Java tests round-trip a few objects; adversarial encodings quantify over all byte strings.",
  ["cipher.c", "ecdsa.c", "eckey.c", "payload.c", "packet_meta.c", "key_exchange.c", "node.c", "identity.c", "root_keys.c", "storage.c", "stream_key.c", "protocol.c", "encoder_result.c", "wickr_ctx.c", "ephemeral_keypair.c"],
  [("codecs", "*_serialize / *_create_from_buffer in each file")],
  observe=["field equality, re-serialisation, refusal"])
p("D02", "Fingerprints identify keys, and a pair's fingerprint is the same from both ends",
  "A fingerprint is determined by the identifier and public key it is computed from and changes when either changes; two parties computing their shared fingerprint obtain the same value regardless of who computes it, a different value for any other pair, and nothing for a party with itself. Each rendering shows the documented prefix of that value as a null-terminated string.",
  ["inputs"],
  "all pairs of identifiers and keys in both argument orders and all renderings",
  "Tests compare a handful of values; symmetry and separation are pairwise over all inputs.",
  ["fingerprint.c", "b32.c"],
  [("fingerprint computation", "fingerprint.c")],
  observe=["fingerprint values and renderings"])
p("D03", "Text encodings are lossless and reject foreign characters",
  "Base32, base64 and hexadecimal encoding of any data decode back to the same data for every length, use only their alphabet, and match their published definitions; Base32 and base64 decoders refuse characters outside the alphabet.",
  ["inputs"],
  "all byte strings up to the modelled length, all residues of the length, all single foreign characters at any position",
  "Residue and bit-carry errors show only for particular lengths and byte values.",
  ["b32.c", "util.c"],
  [("codecs", "b32.c, util.c")],
  observe=["encoded text and decoded bytes"])
p("D04", "Arrays own, copy and bound their items as declared",
  "An array returns for each index what was last stored there (or a copy of it), refuses every index outside its bounds without effect, deep copies are independent while shallow copies share items, and destroying it releases each owned item exactly once.",
  ["histories"],
  "all sequences of create, store, fetch, copy and destroy with copying and non-copying variants",
  "Ownership errors need particular operation sequences.",
  ["array.c"],
  [("array container", "array.c")],
  [("items", "stored pointers", "array.c")],
  ["item contents, copy and release counts"])
p("D05", "Buffer operations are exact within bounds and refuse anything outside",
  "Copy, section, concatenation, in-place modification and comparison of buffers return exactly the bytes requested for every offset and length inside the buffer, and fail without any effect for every offset or length, however large, that is not.",
  ["inputs"],
  "all buffer lengths, offsets and lengths including those that overflow when added",
  "Boundary and overflow combinations are not sampled by tests.",
  ["buffer.c"],
  [("range validation", "buffer.c: __validate_buffer_range")],
  observe=["results and unchanged contents"])
p("D06", "Copies are complete and independent",
  "Copying any object of the library yields one equal in every observable respect, private parts, identity verdicts and behaviour included, that stays valid and unchanged when the original is destroyed or altered.",
  ["histories", "inputs"],
  "all copyable objects with all optional parts present or absent",
  "A dropped or aliased field shows only after the original is gone or for particular optional parts.",
  ["cipher.c", "ecdsa.c", "eckey.c", "identity.c", "node.c", "ephemeral_keypair.c", "key_exchange.c", "payload.c", "packet_meta.c", "protocol.c", "root_keys.c", "storage.c", "stream_key.c", "transport_packet.c", "transport_root_key.c", "transport_ctx.c", "wickr_ctx.c", "devinfo.c", "kdf.c", "encoder_result.c", "fingerprint.c"],
  [("copy functions", "*_copy in each file")],
  observe=["equality before and after destroying the original"])
p("D07", "Operations fail closed when the crypto engine fails",
  "If any one underlying cryptographic operation fails during a library call, the call reports failure without crashing, emits nothing and leaves its inputs usable, or completes with a fully correct result; it never returns a partial result, a weaker ciphertext or plaintext.",
  ["fault_sequences"],
  "every library operation and every single failing primitive call inside it",
  "Primitive failures never happen in tests.",
  ["wickr_ctx.c", "protocol.c", "transport_ctx.c", "transport_handshake.c", "stream_ctx.c", "identity.c", "node.c", "root_keys.c", "storage.c", "devinfo.c", "fingerprint.c"],
  [("error paths", "every call through the crypto engine")],
  observe=["results under injected failures, sanitizer reports"])
p("D08", "Device identifiers are a stable, one-way function of device and salt",
  "Deriving device information again from the same device identifier and salt gives the same message and server identifiers and system salt; another device or another salt of the same length gives different identifiers; the two published identifiers differ from each other and reveal neither the system salt nor the device identifier.",
  ["inputs"],
  "all pairs of device identifiers and salts",
  "Pairwise statement over all inputs; the Java test checks one derivation.",
  ["devinfo.c"],
  [("derivation", "devinfo.c: wickr_dev_info_derive")],
  observe=["derived identifiers"])
p("D09", "What earlier builds stored, sent or derived stays readable",
  "Whatever the library wrote in its current formats at the base release (contexts, exports, recovery data, stored data, messages of versions 2 to 4, sealed texts, stream packets, a transport connection, encrypted files, signatures and MACs) is read by this build with the outcome it had then: the readers it was meant for get the same content, nobody else does. Identifiers, fingerprints, digests, agreed secrets, storage keys and stream keys derived from the same inputs come out the same, so that devices running different builds understand each other.",
  ["histories", "inputs"],
  "every reader, passphrase, device and key crossed with every recorded artefact, in any order",
  "Both ends of every test are the same build: a change made alike to writer and reader, or to both ends of a derivation, passes unnoticed.",
  ["root_keys.c", "wickr_ctx.c", "protocol.c", "key_exchange.c", "storage.c", "stream_ctx.c", "transport_handshake.c", "transport_ctx.c", "transport_packet.c", "openssl_suite.c", "openssl_file_suite.c", "kdf.c", "devinfo.c", "fingerprint.c", "identity.c", "ecdh_cipher_ctx.c"],
  [("derivations", "root_keys.c: localize; stream_ctx.c: evolve; transport_handshake.c: kdf_meta_gen, finalize; protocol.c: key exchange"), ("formats", "*_serialize / *_create_from_buffer")],
  observe=["outcome and content of reading recorded artefacts", "derived values for recorded inputs"])
p("D10", "Memory that held a secret is erased before it is released",
  "Private keys, cipher, storage, recovery, stream and evolution keys, agreed and derived secrets, salts of a device, transport root secrets and message bodies are overwritten before the memory holding them is released: destroying any object leaves none of its secrets in the released memory, and encrypting, decrypting, signing, deriving, key generation, copying, serialising, exporting, importing, packet encoding and opening and handshakes leave none of the secrets or plaintexts they handed to or got from the crypto engine. Excepted are the parsed parts (protobuf fields) that reading an encoding releases.",
  ["histories", "inputs"],
  "every object kind with every optional part present or absent, every operation in every state of the modelled instances, released memory searched at the moment of release",
  "What is left in released memory is invisible to any test of results.",
  ["buffer.c", "cipher.c", "eckey.c", "payload.c", "protocol.c", "key_exchange.c", "root_keys.c", "storage.c", "stream_ctx.c", "stream_key.c", "transport_handshake.c", "transport_root_key.c", "wickr_ctx.c", "devinfo.c", "ecdh_cipher_ctx.c", "kdf.c"],
  [("erasing destructors", "buffer.c: wickr_buffer_destroy_zero and its callers")],
  observe=["contents of memory blocks at the moment the library releases them"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
