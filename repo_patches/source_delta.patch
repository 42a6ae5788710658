From 7465683dda32442c04d8e3ee1963d6ebc56b6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 01/29] fix: a packet that fails to encode or decode leaves the
 stream unchanged

wickr_stream_ctx_encode/decode committed the sequence number and the
evolved key even when the cipher operation failed, so one forged packet
with a high sequence number made a decoder refuse every genuine packet
that followed.
---
 src/wickrcrypto/src/stream_ctx.c | 55 ++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 7baa2eb..0cb06df 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -131,27 +131,24 @@ static wickr_stream_key_t *__wickr_stream_key_create_with_evo_buffer(wickr_strea
     return new_key;
 }
 
-static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder, uint64_t seq_num)
+/* Produces the key in force at seq_num, without changing the stream. The stream only moves on to it by committing it */
+static wickr_stream_key_t *__wickr_stream_ctx_evolove_key_material(const wickr_stream_ctx_t *encoder, uint64_t seq_num)
 {
     if (!encoder) {
-        return false;
+        return NULL;
     }
     
     uint64_t curr_evo = encoder->last_seq / encoder->key->packets_per_evolution;
     uint64_t seq_evo = seq_num / encoder->key->packets_per_evolution;
 
     if (seq_evo < curr_evo) {
-        return false;
-    }
-    
-    if (seq_evo == curr_evo) {
-        return true;
+        return NULL;
     }
     
     wickr_stream_key_t *curr_key = wickr_stream_key_copy(encoder->key);
     
     if (!curr_key) {
-        return false;
+        return NULL;
     }
     
     while (curr_evo != seq_evo) {
@@ -162,7 +159,7 @@ static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder,
         
         if (!evo_buffer) {
             wickr_stream_key_destroy(&curr_key);
-            return false;
+            return NULL;
         }
         
         wickr_stream_key_t *new_key = __wickr_stream_key_create_with_evo_buffer(curr_key, evo_buffer);
@@ -170,17 +167,21 @@ static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder,
         wickr_buffer_destroy_zero(&evo_buffer);
 
         if (!new_key) {
-            return false;
+            return NULL;
         }
         
         curr_key = new_key;
         curr_evo++;
     }
     
-    wickr_stream_key_destroy(&encoder->key);
-    encoder->key = curr_key;
-    
-    return true;
+    return curr_key;
+}
+
+static void __wickr_stream_ctx_commit(wickr_stream_ctx_t *ctx, wickr_stream_key_t *key, uint64_t seq_num)
+{
+    wickr_stream_key_destroy(&ctx->key);
+    ctx->key = key;
+    ctx->last_seq = seq_num;
 }
 
 wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wickr_buffer_t *data, const wickr_buffer_t *aad, uint64_t seq_num)
@@ -195,15 +196,22 @@ wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wi
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *key = __wickr_stream_ctx_evolove_key_material(ctx, seq_num);
+    
+    if (!key) {
         wickr_buffer_destroy(&iv);
         return NULL;
     }
     
-    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, ctx->key->cipher_key, iv);
+    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, key->cipher_key, iv);
     wickr_buffer_destroy(&iv);
     
-    ctx->last_seq = seq_num;
+    if (!encrypt_result) {
+        wickr_stream_key_destroy(&key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_commit(ctx, key, seq_num);
     
     return encrypt_result;
 }
@@ -214,13 +222,20 @@ wickr_buffer_t *wickr_stream_ctx_decode(wickr_stream_ctx_t *ctx, const wickr_cip
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *key = __wickr_stream_ctx_evolove_key_material(ctx, seq_num);
+    
+    if (!key) {
         return NULL;
     }
     
-    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, ctx->key->cipher_key, true);
+    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, key->cipher_key, true);
     
-    ctx->last_seq = seq_num;
+    if (!decrypt_result) {
+        wickr_stream_key_destroy(&key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_commit(ctx, key, seq_num);
     
     return decrypt_result;
 }
-- 
2.43.0


From 076e6ac422b261f90db37cfa2c628f5b4d7689d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 02/29] fix: a handshake seed is not read as a response, nor a
 response as a seed

---
 src/wickrcrypto/src/transport_handshake.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index bc9a349..f351318 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -387,7 +387,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
         return;
     }
     
-    if (!handshake_data->response ||
+    if (handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE || !handshake_data->response ||
         !handshake_data->response->has_encrypted_response_data ||
         !handshake_data->response->has_ephemeral_pubkey) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
@@ -511,7 +511,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-    if (!handshake_data || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
+    if (!handshake_data || handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED ||
+        !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
         || !handshake_data->seed->has_identity_required) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
-- 
2.43.0


From d7231be2778cfa2e0d0a17ff437aac0a239f6fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 03/29] fix: an identity approved after the transport failed
 does not make it active

---
 src/wickrcrypto/src/transport_ctx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 53a1808..8e528a4 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -252,6 +252,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     /* Remove const for internal work */
     wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
     
+    /* An error is final, the answer comes too late */
+    if (_ctx->status == TRANSPORT_STATUS_ERROR) {
+        return;
+    }
+    
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-- 
2.43.0


From 582e7e3c1892c5cf8b8272481ecdecdd6590a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 04/29] fix: a transport that already answers a handshake can
 not be started

---
 src/wickrcrypto/src/transport_ctx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 8e528a4..66b0231 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -312,7 +312,7 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
 
 void wickr_transport_ctx_start(wickr_transport_ctx_t *ctx)
 {
-    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE) {
+    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE || ctx->pending_handshake) {
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_BAD_START_STATUS);
         return;
     }
-- 
2.43.0


From f363a890ea9b85391c80562c1b0bc2554542bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 05/29] fix: a handshake that can not be finalized puts the
 transport in the error state

---
 src/wickrcrypto/src/transport_ctx.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 66b0231..3e1b855 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -222,6 +222,7 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
     
     if (!tx_stream) {
         wickr_stream_key_destroy(&tx_key);
+        wickr_transport_handshake_res_destroy(&res);
         return false;
     }
     
@@ -259,8 +260,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(_ctx);
+    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION &&
+        !__wickr_transport_ctx_finalize_handshake(_ctx)) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
+        return;
     }
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
@@ -390,8 +394,11 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     /* Process the packet with the handshake */
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_process(ctx->pending_handshake, packet);
     
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(ctx);
+    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION &&
+        !__wickr_transport_ctx_finalize_handshake(ctx)) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
+        return;
     }
     
     if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-- 
2.43.0


From 25e016b87b6f73647b7e2832abfbaebadf2b6437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 06/29] fix: rejecting an identity within the callback reports
 the documented error

---
 src/wickrcrypto/src/transport_ctx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 3e1b855..be4057b 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -402,7 +402,10 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     }
     
     if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
+        /* An identity rejected from within the callback has been reported already */
+        if (ctx->status != TRANSPORT_STATUS_ERROR) {
+            __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
+        }
         return;
     }
     
-- 
2.43.0


From 9366285908a7fefa5d57ba1c1e11ee808355ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 07/29] fix: only data packets, which have a sequence number,
 are decoded as data

---
 src/wickrcrypto/src/transport_ctx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index be4057b..3305800 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -139,7 +139,7 @@ void wickr_transport_ctx_destroy(wickr_transport_ctx_t **ctx)
 
 static wickr_buffer_t *__wickr_transport_ctx_decode_pkt(const wickr_transport_ctx_t *ctx, const wickr_transport_packet_t *pkt)
 {
-    if (!ctx || !pkt) {
+    if (!ctx || !pkt || pkt->meta.body_type != TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT) {
         return NULL;
     }
     
-- 
2.43.0


From 8f46415b4ccd2c780647f8b0cbe45fc95c2df1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 08/29] fix: copying a transport keeps its error and pending
 handshake, pinned identity or not

---
 src/wickrcrypto/src/transport_ctx.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 3305800..1b63471 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -76,7 +76,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
-    if (!remote_copy) {
+    if (!remote_copy && ctx->remote_identity) {
         wickr_identity_chain_destroy(&local_copy);
         return NULL;
     }
@@ -98,9 +98,20 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
         return NULL;
     }
     
+    wickr_transport_handshake_t *handshake_copy = wickr_transport_handshake_copy(ctx->pending_handshake);
+    
+    if (!handshake_copy && ctx->pending_handshake) {
+        wickr_identity_chain_destroy(&local_copy);
+        wickr_identity_chain_destroy(&remote_copy);
+        wickr_stream_ctx_destroy(&tx_copy);
+        wickr_stream_ctx_destroy(&rx_copy);
+        return NULL;
+    }
+    
     wickr_transport_ctx_t *copy = wickr_alloc_zero(sizeof(wickr_transport_ctx_t));
     
     if (!copy) {
+        wickr_transport_handshake_destroy(&handshake_copy);
         wickr_identity_chain_destroy(&local_copy);
         wickr_identity_chain_destroy(&remote_copy);
         wickr_stream_ctx_destroy(&tx_copy);
@@ -114,6 +125,9 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     copy->tx_stream = tx_copy;
     copy->rx_stream = rx_copy;
     copy->status = ctx->status;
+    copy->err = ctx->err;
+    copy->pending_handshake = handshake_copy;
+    wickr_transport_set_user_data(copy->pending_handshake, copy);
     copy->callbacks = ctx->callbacks;
     copy->evo_count = ctx->evo_count;
     copy->user = ctx->user;
-- 
2.43.0


From 3f1b58826ea774765998ec95cc1a2cb7490f6036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 09/29] fix: a cached node verdict is bound to the chain, and
 cached verdicts to the signature's digest

---
 src/wickrcrypto/src/identity_priv.c | 4 ++++
 src/wickrcrypto/src/node_priv.c     | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/wickrcrypto/src/identity_priv.c b/src/wickrcrypto/src/identity_priv.c
index c439ec3..2b4fc87 100644
--- a/src/wickrcrypto/src/identity_priv.c
+++ b/src/wickrcrypto/src/identity_priv.c
@@ -260,9 +260,13 @@ wickr_buffer_t *wickr_identity_chain_make_status_cache(const wickr_identity_chai
     uint8_t status_int = (uint8_t)chain->status;
     wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
     
+    uint8_t digest_int = (uint8_t)chain->node->signature->digest_mode.digest_id;
+    wickr_buffer_t digest_buffer =  { .length = sizeof(uint8_t), .bytes = &digest_int };
+    
     wickr_buffer_t *buffers[] = {
         chain->root->sig_key->pub_data,
         chain->node->signature->sig_data,
+        &digest_buffer,
         chain->node->sig_key->pub_data,
         &status_buffer
     };
diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 8a3adaf..8fd5bbd 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -119,9 +119,15 @@ wickr_buffer_t *wickr_node_make_status_cache(const wickr_node_t *node,
     uint8_t status_int = (uint8_t)node->status;
     wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
     
+    uint8_t digest_int = (uint8_t)node->ephemeral_keypair->signature->digest_mode.digest_id;
+    wickr_buffer_t digest_buffer =  { .length = sizeof(uint8_t), .bytes = &digest_int };
+    
+    /* The verdict depends on the identity chain, so it is only valid for the chain it was made with */
     wickr_buffer_t *buffers[] = {
         node->ephemeral_keypair->ec_key->pub_data,
         node->ephemeral_keypair->signature->sig_data,
+        &digest_buffer,
+        node->id_chain->_status_cache,
         &status_buffer
     };
     
-- 
2.43.0


From fc1048df8e9d4c33288404b77e1f60698bd6c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 10/29] fix: refuse to serialize root keys whose signature root
 has no private key

---
 src/wickrcrypto/src/root_keys.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/root_keys.c b/src/wickrcrypto/src/root_keys.c
index 3434e0a..a6903c9 100644
--- a/src/wickrcrypto/src/root_keys.c
+++ b/src/wickrcrypto/src/root_keys.c
@@ -125,6 +125,11 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
 
 wickr_buffer_t *wickr_root_keys_serialize(const wickr_root_keys_t *keys)
 {
+    /* The private half of the signature root is what gets serialized */
+    if (!keys || !keys->node_signature_root->pri_data) {
+        return NULL;
+    }
+    
     Wickr__Proto__RootKeys rootkeys = WICKR__PROTO__ROOT_KEYS__INIT;
     rootkeys.version = CURRENT_ROOT_KEY_VERSION;
     
-- 
2.43.0


From f89e0fe43323ded3cc53d251f351d86455b7aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 11/29] fix: refuse to encrypt with an IV of the wrong length

openssl_aes256_encrypt handed a caller supplied IV to OpenSSL without
checking its length; an IV shorter than the cipher's was read out of
bounds.
---
 src/wickrcrypto/src/openssl_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index fc48e27..cb1afb1 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -409,6 +409,11 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         return NULL;
     }
     
+    /* OpenSSL reads exactly iv_len bytes from the IV buffer, so anything else would be read out of bounds or ignored */
+    if (iv && iv->length != cipher.iv_len) {
+        return NULL;
+    }
+    
     /* If an IV is not passed in, generate a random one */
     wickr_buffer_t *iv_f = iv ? wickr_buffer_copy(iv) : openssl_crypto_random(cipher.iv_len);
     
-- 
2.43.0


From a29820a8d04dc2c6f930c8bcc9a322adc11762f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 12/29] fix: do not truncate the output size of HKDF expand
 parameters

wickr_kdf_meta_create_hkdf_expand stored its size_t output size in 8
bits, so asking for 288 bytes silently gave parameters deriving 32.
---
 src/wickrcrypto/src/kdf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 86cd7e8..bf60483 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -62,6 +62,11 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_hkdf_expand(const wickr_digest_t *digest
         return NULL;
     }
 
+    // The output size of an algorithm is held in 8 bits, don't silently derive fewer bytes than requested
+    if (output_size > UINT8_MAX) {
+        return NULL;
+    }
+
     // Currently only SHA512 is supported
     if (digest->digest_id != DIGEST_ID_SHA512) {
         return NULL;
-- 
2.43.0


From 265868fbb55939e51483c2029048e0bbea9c5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 13/29] fix: do not index the base64 table with negative
 characters

Characters above 0x7f are negative where char is signed and read memory
before the decoding table instead of being refused.
---
 src/wickrcrypto/src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index a76a634..2e9595c 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -120,7 +120,7 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 			continue;
 		}
 
-		intCurrent = _base64DecodingTable[intCurrent];
+		intCurrent = _base64DecodingTable[(unsigned char)intCurrent];
 		if (intCurrent == -1) {
 			// we're at a whitespace -- simply skip over
 			continue;
-- 
2.43.0


From b385b238e4808f503ffe12772f3c2ba6d96bfa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 14/29] fix: refuse base64 text that holds no data

Text made of padding, whitespace or a single character decoded to a
buffer of length 0, which every other buffer operation refuses.
---
 src/wickrcrypto/src/util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index 2e9595c..5f5bedc 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -169,6 +169,12 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 		}
 	}
 
+    /* Buffers are never empty, there is no data in this string */
+    if (j == 0) {
+        wickr_buffer_destroy(&objResult);
+        return NULL;
+    }
+    
     objResult->length = j;
 	return objResult;
 }
-- 
2.43.0


From 22e3be12706adf726d2f5b0706cdf111ead8d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 15/29] fix: null terminate base32 text as documented

base32_encode, and with it wickr_fingerprint_get_b32, document a null
terminated string but allocated no terminator.
---
 src/wickrcrypto/src/b32.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/b32.c b/src/wickrcrypto/src/b32.c
index 4664ce5..b163b1f 100644
--- a/src/wickrcrypto/src/b32.c
+++ b/src/wickrcrypto/src/b32.c
@@ -226,11 +226,19 @@ wickr_buffer_t *base32_encode(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    wickr_buffer_t *return_buffer = wickr_buffer_create_empty_zero(__base32_encode_length(buffer->length));
+    size_t encode_length = __base32_encode_length(buffer->length);
+    
+    if (encode_length == 0) {
+        return NULL;
+    }
+    
+    /* Leave room for the null terminator, which is not part of the length */
+    wickr_buffer_t *return_buffer = wickr_buffer_create_empty_zero(encode_length + 1);
     
     if (!return_buffer) {
         return NULL;
     }
+    return_buffer->length = encode_length;
     
     if (!__base32_encode_base32(buffer->bytes, buffer->length, return_buffer->bytes)) {
         wickr_buffer_destroy(&return_buffer);
-- 
2.43.0


From c9cff86708a721dcce5fc03266850ea892479baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 16/29] fix: do not encrypt or decrypt a file that is its own
 temporary file

Opening <destination>.temp for writing truncated a source of that name before it was read.
---
 src/wickrcrypto/src/openssl_file_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 8e6d7c3..57859d2 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -101,6 +101,11 @@ static AESFileOperation *createFileOperation(const char *source, const char *des
 
     snprintf(tempPath, len, "%s.temp", destination);
 
+    // Opening the temporary file would destroy a source of the same name
+    if (strcmp(source, tempPath) == 0) {
+        goto process_error;
+    }
+
 #if defined(_WIN32)
     if (windowsOpenFile(&destinationHandle, tempPath, L"wb") != 0 || !destinationHandle) {
         goto process_error;
-- 
2.43.0


From 82281b0e3dee4b0836d4154d7e3c56bf52cf944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 17/29] fix: report a failure to write the last buffered data
 of a file operation

The result of fclose was ignored, so a truncated file replaced the destination and success was returned.
---
 src/wickrcrypto/src/openssl_file_suite.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 57859d2..e0d9fdb 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -151,19 +151,24 @@ static void aesFileOpRemoveTempFile(AESFileOperation *operation) {
     remove(operation->tempPath);
 }
 
-static void aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+/* Returns false if data that was still buffered for the destination can't be written */
+static bool aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+	bool retVal = true;
 	if (operation->sourceHandle) {
 		fclose(operation->sourceHandle);
 		operation->sourceHandle = NULL;
 	}
 	if (operation->destinationHandle) {
-		fclose(operation->destinationHandle);
+		retVal = fclose(operation->destinationHandle) == 0;
 		operation->destinationHandle = NULL;
 	}
+	return retVal;
 }
 
 static bool aesFileOpMoveTempToDestination(AESFileOperation *operation) {
-    aesFileOpCloseSourceAndDestination(operation);
+    if (!aesFileOpCloseSourceAndDestination(operation)) {
+        return false;
+    }
     
     bool retVal = true;
 #if defined(_WIN32)
-- 
2.43.0


From bd1e688f4801d57921a23642ed5204604c405434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 18/29] fix: do not take read errors for the end of a file

A failing fread made file encryption and decryption succeed with a part of the data.
---
 src/wickrcrypto/src/openssl_suite.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index cb1afb1..afdd19e 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1299,6 +1299,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         for (;;) {
             size_t bytes_read = fread(plainBuffer, 1, sizeof(plainBuffer), in_file);
             
+            // A read error is not the end of the file
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_EncryptUpdate(ctx, cipherBuffer, &outlength, plainBuffer, (int)bytes_read)) {
                 goto process_error;
             }
@@ -1469,6 +1474,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         for (;;) {
             size_t bytesRead = fread(cipherBuffer, 1, sizeof(cipherBuffer), in_file);
             
+            // A read error is not the end of the file
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_DecryptUpdate(ctx, plainBuffer, &outlength, cipherBuffer, (int)bytesRead)) {
                 goto process_error;
             }
-- 
2.43.0


From 02ab677b1ca28a1b97f80c8b3ec7a11058f980d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 19/29] fix: do not lose write errors and tags when an
 encrypted file is completed

rewind clears the error indicator after a failing flush, and a missing serialized result left the header of zeros in place.
---
 src/wickrcrypto/src/openssl_suite.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index afdd19e..39831ed 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1342,13 +1342,20 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         // Complete the saving of data to the file
         serialized = wickr_cipher_result_serialize(cipher_result);
-        if (serialized) {
-            //Seek to the position that the Tag zeros start in the file so we can fill in the tag
-            rewind(out_file);
-            size_t bytes_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
-            if (bytes_written != serialized->length) {
-                goto process_error;
-            }
+        if (!serialized) {
+            goto process_error;
+        }
+        
+        // rewind discards write errors, so everything buffered so far has to be written first
+        if (fflush(out_file) != 0) {
+            goto process_error;
+        }
+        
+        //Seek to the position that the Tag zeros start in the file so we can fill in the tag
+        rewind(out_file);
+        num_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
+        if (num_written != serialized->length) {
+            goto process_error;
         }
         
         ret_val = true;
-- 
2.43.0


From bbc83e7892d98206e7af1fd638508d7aa3cfb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 20/29] fix: decrypt files only with a key for their cipher

An AES-GCM file whose cipher byte is set to CTR was decrypted without authentication with the GCM key.
---
 src/wickrcrypto/src/openssl_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 39831ed..497dc96 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1431,6 +1431,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             goto process_error;
         }
         
+        /* The key must be for the cipher the file claims to use, otherwise an authenticated file could be relabeled */
+        if (key->cipher.cipher_id != cipher_result->cipher.cipher_id) {
+            goto process_error;
+        }
+        
         /* OpenSSL does not allow decryption of buffers greater than INT_MAX in length */
         if (key->key_data->length != cipher_result->cipher.key_len) {
             goto process_error;
-- 
2.43.0


From 40c07b34a9e4d6dc0f8e3a89c299ee039def5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 21/29] fix: refuse keys whose encoding fails instead of using
 a negative size

---
 src/wickrcrypto/src/openssl_suite.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 497dc96..af7ae2e 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -128,8 +128,13 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
 
 static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC_KEY *key)
 {
-    size_t key_size = i2o_ECPublicKey(key, NULL);
-    wickr_buffer_t *pub_key_data = wickr_buffer_create_empty_zero(sizeof(uint8_t) + key_size);
+    int key_size = i2o_ECPublicKey(key, NULL);
+    
+    if (key_size <= 0) {
+        return NULL;
+    }
+    
+    wickr_buffer_t *pub_key_data = wickr_buffer_create_empty_zero(sizeof(uint8_t) + (size_t)key_size);
     
     if (!pub_key_data) {
         return NULL;
@@ -144,7 +149,7 @@ static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC
     }
     
     uint8_t* bytes = pub_key_data->bytes + sizeof(uint8_t);
-    if (!i2o_ECPublicKey(key, &bytes)) {
+    if (key_size != i2o_ECPublicKey(key, &bytes)) {
         wickr_buffer_destroy(&pub_key_data);
         return NULL;
     }
@@ -154,15 +159,20 @@ static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC
 
 static wickr_buffer_t *__openssl_ec_pri_key_to_buffer(EC_KEY *key)
 {
-    size_t key_size = i2d_ECPrivateKey(key, NULL);
-    wickr_buffer_t *pri_key_data = wickr_buffer_create_empty_zero(key_size);
+    int key_size = i2d_ECPrivateKey(key, NULL);
+    
+    if (key_size <= 0) {
+        return NULL;
+    }
+    
+    wickr_buffer_t *pri_key_data = wickr_buffer_create_empty_zero((size_t)key_size);
     
     if (!pri_key_data) {
         return NULL;
     }
     
     uint8_t *bytes = pri_key_data->bytes;
-    if (!i2d_ECPrivateKey(key, &bytes)) {
+    if (key_size != i2d_ECPrivateKey(key, &bytes)) {
         wickr_buffer_destroy_zero(&pri_key_data);
         return NULL;
     }
-- 
2.43.0


From 5e6fc49830d7ed6269dc073fe4d4dfb8901876ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 22/29] fix: check and release digest contexts when signing or
 verifying cannot start

---
 src/wickrcrypto/src/openssl_suite.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index af7ae2e..dceacc4 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -231,6 +231,10 @@ static EVP_MD_CTX * __openssl_digest_ctx_create(wickr_digest_t digest_mode)
     
     EVP_MD_CTX *ctx = EVP_MD_CTX_create();
     
+    if (!ctx) {
+        return NULL;
+    }
+    
     /* Initialize a digest context using the requested digest mode */
     if (1 != EVP_DigestInit_ex(ctx, digest, NULL)) {
         EVP_MD_CTX_destroy(ctx);
@@ -260,6 +264,7 @@ static EVP_MD_CTX * __openssl_digest_sign_ctx_create(wickr_digest_t digest_mode,
     EVP_PKEY *evp_signing_key = key_deserialization_function(key_data);
     
     if (!evp_signing_key) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
@@ -287,6 +292,7 @@ static EVP_MD_CTX * __openssl_digest_verify_ctx_create(wickr_digest_t digest_mod
     
     /* Initialize a digest context with the digest the signature was created with */
     if (1 != EVP_DigestInit_ex(ctx, EVP_MD_CTX_md(ctx), NULL)) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
-- 
2.43.0


From 25de3d7634c9a9be365446033793f25a4d36e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 23/29] fix: refuse additional data that does not fit the
 cipher interface

---
 src/wickrcrypto/src/openssl_suite.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index dceacc4..3bfb5ac 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -412,6 +412,11 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         return NULL;
     }
     
+    /* OpenSSL does not allow authentication of additional data greater than INT_MAX size */
+    if (aad && aad->length > INT_MAX) {
+        return NULL;
+    }
+    
     const EVP_CIPHER *openssl_cipher = __openssl_get_cipher_mode(key->cipher);
     
     if (!openssl_cipher) {
@@ -532,6 +537,11 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
     if (aad && !cipher_result->cipher.is_authenticated) {
         return NULL;
     }
+    
+    /* OpenSSL does not allow authentication of additional data greater than INT_MAX size */
+    if (aad && aad->length > INT_MAX) {
+        return NULL;
+    }
 
     const EVP_CIPHER *cipher = __openssl_get_cipher_mode(cipher_result->cipher);
     
@@ -590,7 +600,7 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
     
     /* Update the AAD if needed */
     
-    if (aad && aad->length <= INT_MAX) {
+    if (aad) {
         if (1 != EVP_DecryptUpdate(ctx, NULL, &temp_length, aad->bytes, (int)aad->length)) {
             goto process_error;
         }
-- 
2.43.0


From 72a427513491a1094bc117d2e025834f7e5e5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 24/29] fix: do not use a key that could not be allocated

---
 src/wickrcrypto/src/openssl_suite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 3bfb5ac..95de07c 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -763,13 +763,13 @@ wickr_ec_key_t *openssl_ec_rand_key(wickr_ec_curve_t curve)
     /* Generate an EC_KEY struct with the selected curve */
     EC_KEY *new_key = EC_KEY_new_by_curve_name(nid);
     
-    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
-    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
-    
     if (!new_key) {
         return NULL;
     }
     
+    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
+    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
+    
     /* Generate a random  key pair  and store it in new_key */
     if (1 != EC_KEY_generate_key(new_key)) {
         EC_KEY_free(new_key);
-- 
2.43.0


From 8dbb8ba81afab5eb6e92d7d461216a636fc100a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 25/29] fix: check the cipher context when decrypting a file

---
 src/wickrcrypto/src/openssl_suite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 95de07c..584d9eb 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1476,6 +1476,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         /* Allocate a cipher context */
         ctx = EVP_CIPHER_CTX_new();
+        if (!ctx) {
+            goto process_error;
+        }
         
         /* Initialize the context with NULL to allow us to perform control operations */
         if (1 != EVP_DecryptInit_ex(ctx, cipher, NULL, NULL, NULL)) {
-- 
2.43.0


From b8fe4b282cac6d09009abcfde9ca41c848bdcc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 26/29] fix: report that a context could not be recovered
 instead of using it

---
 src/wickrcrypto/src/wickr_ctx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index acf6bcb..655fadc 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -164,6 +164,10 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_recovery(const wickr_crypto_engine_t
     wickr_ctx_gen_result_t *gen_result = wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
     wickr_root_keys_destroy(&root_keys);
     
+    if (!gen_result) {
+        return NULL;
+    }
+    
     /* Swap out the randomly assigned recovery key with the one that was specified */
     wickr_cipher_key_destroy(&gen_result->recovery_key);
     gen_result->recovery_key = wickr_cipher_key_copy(recovery_key);
-- 
2.43.0


From 0cd5e6803f99769bc2c9230cfba81146e91b7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:09 +0000
Subject: [PATCH 27/29] fix: erase cipher keys held by storage and stream key
 protobufs before releasing them

---
 src/wickrcrypto/src/storage_priv.c    | 2 ++
 src/wickrcrypto/src/stream_key_priv.c | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index ef5cd62..381a4d2 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -11,7 +11,9 @@ void wickr_storage_keys_proto_free(Wickr__Proto__StorageKeys *proto_keys)
         return;
     }
     
+    wickr_zero(proto_keys->local_storage.data, proto_keys->local_storage.len);
     wickr_free(proto_keys->local_storage.data);
+    wickr_zero(proto_keys->remote_storage.data, proto_keys->remote_storage.len);
     wickr_free(proto_keys->remote_storage.data);
     wickr_free(proto_keys);
 }
diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index b8ac43f..84ecb19 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -8,6 +8,7 @@ void wickr_stream_key_proto_free(Wickr__Proto__StreamKey *proto_key)
     if (!proto_key) {
         return;
     }
+    wickr_zero(proto_key->cipher_key.data, proto_key->cipher_key.len);
     wickr_free(proto_key->cipher_key.data);
     wickr_free(proto_key);
 }
-- 
2.43.0


From 23f5fed0baca547bcd107111792be59da9daf71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:09 +0000
Subject: [PATCH 28/29] fix: erase the serialized transport root key before
 releasing it

---
 src/wickrcrypto/src/transport_handshake.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index f351318..bfa0beb 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -589,7 +589,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     wickr_cipher_result_t *result = wickr_ecdh_cipher_ctx_cipher(cipher_ctx, serialized_response_data, ephemeral_key, kdf_meta);
     
     wickr_kdf_meta_destroy(&kdf_meta);
-    wickr_buffer_destroy(&serialized_response_data);
+    wickr_buffer_destroy_zero(&serialized_response_data);
     wickr_ec_key_destroy(&ephemeral_key);
     
     if (!result) {
-- 
2.43.0


From 29950dc4b820295f503a7f07c3502d150587edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:08 +0000
Subject: [PATCH 29/29] fix: erase the secret held by a transport root key
 protobuf before releasing it

---
 src/wickrcrypto/src/transport_root_key_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_root_key_priv.c b/src/wickrcrypto/src/transport_root_key_priv.c
index c9ea99b..44e240f 100644
--- a/src/wickrcrypto/src/transport_root_key_priv.c
+++ b/src/wickrcrypto/src/transport_root_key_priv.c
@@ -72,6 +72,7 @@ void wickr_transport_root_key_proto_free(Wickr__Proto__TransportRootKey *root_ke
         return;
     }
     
+    wickr_zero(root_key_proto->secret.data, root_key_proto->secret.len);
     wickr_free(root_key_proto->secret.data);
     wickr_free(root_key_proto);
 }
-- 
2.43.0

