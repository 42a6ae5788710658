/* Included before everything else when openssl_suite.c and kdf.c are compiled: every call of a primitive
 * that may fail asks vp_fault() first, so that a driver can make the n-th of them fail. */
#ifndef VP_FAULTS_H
#define VP_FAULTS_H
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <openssl/ec.h>
#include <openssl/hmac.h>
#include <openssl/bn.h>
#include <openssl/ecdsa.h>
#include <openssl/kdf.h>
#include "libscrypt.h"
#include "ow-crypt.h"
extern int vp_fault(void);
static inline EC_KEY *vp_d2i_ECPrivateKey(EC_KEY **k, const unsigned char **p, long n) { return vp_fault() ? 0 : d2i_ECPrivateKey(k, p, n); }
static inline EC_KEY *vp_o2i_ECPublicKey(EC_KEY **k, const unsigned char **p, long n) { return vp_fault() ? 0 : o2i_ECPublicKey(k, p, n); }
#define d2i_ECPrivateKey vp_d2i_ECPrivateKey
#define o2i_ECPublicKey vp_o2i_ECPublicKey
#define BN_bin2bn(...) (vp_fault() ? 0 : BN_bin2bn(__VA_ARGS__))
#define BN_hex2bn(...) (vp_fault() ? 0 : BN_hex2bn(__VA_ARGS__))
#define BN_new(...) (vp_fault() ? 0 : BN_new(__VA_ARGS__))
#define ECDSA_SIG_new(...) (vp_fault() ? 0 : ECDSA_SIG_new(__VA_ARGS__))
#define ECDSA_SIG_set0(...) (vp_fault() ? 0 : ECDSA_SIG_set0(__VA_ARGS__))
#define EC_KEY_generate_key(...) (vp_fault() ? 0 : EC_KEY_generate_key(__VA_ARGS__))
#define EC_KEY_new_by_curve_name(...) (vp_fault() ? 0 : EC_KEY_new_by_curve_name(__VA_ARGS__))
#define EC_KEY_set_private_key(...) (vp_fault() ? 0 : EC_KEY_set_private_key(__VA_ARGS__))
#define EC_KEY_set_public_key(...) (vp_fault() ? 0 : EC_KEY_set_public_key(__VA_ARGS__))
#define EC_POINT_mul(...) (vp_fault() ? 0 : EC_POINT_mul(__VA_ARGS__))
#define EC_POINT_new(...) (vp_fault() ? 0 : EC_POINT_new(__VA_ARGS__))
#define EVP_CIPHER_CTX_ctrl(...) (vp_fault() ? 0 : EVP_CIPHER_CTX_ctrl(__VA_ARGS__))
#define EVP_CIPHER_CTX_new(...) (vp_fault() ? 0 : EVP_CIPHER_CTX_new(__VA_ARGS__))
#define EVP_DecryptFinal_ex(...) (vp_fault() ? 0 : EVP_DecryptFinal_ex(__VA_ARGS__))
#define EVP_DecryptInit_ex(...) (vp_fault() ? 0 : EVP_DecryptInit_ex(__VA_ARGS__))
#define EVP_DecryptUpdate(...) (vp_fault() ? 0 : EVP_DecryptUpdate(__VA_ARGS__))
#define EVP_DigestFinal(...) (vp_fault() ? 0 : EVP_DigestFinal(__VA_ARGS__))
#define EVP_DigestInit(...) (vp_fault() ? 0 : EVP_DigestInit(__VA_ARGS__))
#define EVP_DigestInit_ex(...) (vp_fault() ? 0 : EVP_DigestInit_ex(__VA_ARGS__))
#define EVP_DigestSignFinal(...) (vp_fault() ? 0 : EVP_DigestSignFinal(__VA_ARGS__))
#define EVP_DigestSignInit(...) (vp_fault() ? 0 : EVP_DigestSignInit(__VA_ARGS__))
#define EVP_DigestSignUpdate(...) (vp_fault() ? 0 : EVP_DigestSignUpdate(__VA_ARGS__))
#define EVP_DigestUpdate(...) (vp_fault() ? 0 : EVP_DigestUpdate(__VA_ARGS__))
#define EVP_DigestVerifyFinal(...) (vp_fault() ? 0 : EVP_DigestVerifyFinal(__VA_ARGS__))
#define EVP_DigestVerifyInit(...) (vp_fault() ? 0 : EVP_DigestVerifyInit(__VA_ARGS__))
#define EVP_DigestVerifyUpdate(...) (vp_fault() ? 0 : EVP_DigestVerifyUpdate(__VA_ARGS__))
#define EVP_EncryptFinal_ex(...) (vp_fault() ? 0 : EVP_EncryptFinal_ex(__VA_ARGS__))
#define EVP_EncryptInit_ex(...) (vp_fault() ? 0 : EVP_EncryptInit_ex(__VA_ARGS__))
#define EVP_EncryptUpdate(...) (vp_fault() ? 0 : EVP_EncryptUpdate(__VA_ARGS__))
#define EVP_MD_CTX_new(...) (vp_fault() ? 0 : EVP_MD_CTX_new(__VA_ARGS__))
#define EVP_PKEY_CTX_add1_hkdf_info(...) (vp_fault() ? 0 : EVP_PKEY_CTX_add1_hkdf_info(__VA_ARGS__))
#define EVP_PKEY_CTX_set_hkdf_mode(...) (vp_fault() ? 0 : EVP_PKEY_CTX_set_hkdf_mode(__VA_ARGS__))
#define EVP_PKEY_CTX_new(...) (vp_fault() ? 0 : EVP_PKEY_CTX_new(__VA_ARGS__))
#define EVP_PKEY_CTX_new_id(...) (vp_fault() ? 0 : EVP_PKEY_CTX_new_id(__VA_ARGS__))
#define EVP_PKEY_CTX_set1_hkdf_key(...) (vp_fault() ? 0 : EVP_PKEY_CTX_set1_hkdf_key(__VA_ARGS__))
#define EVP_PKEY_CTX_set1_hkdf_salt(...) (vp_fault() ? 0 : EVP_PKEY_CTX_set1_hkdf_salt(__VA_ARGS__))
#define EVP_PKEY_CTX_set_hkdf_md(...) (vp_fault() ? 0 : EVP_PKEY_CTX_set_hkdf_md(__VA_ARGS__))
#define EVP_PKEY_assign(...) (vp_fault() ? 0 : EVP_PKEY_assign(__VA_ARGS__))
#define EVP_PKEY_derive(...) (vp_fault() ? 0 : EVP_PKEY_derive(__VA_ARGS__))
#define EVP_PKEY_derive_init(...) (vp_fault() ? 0 : EVP_PKEY_derive_init(__VA_ARGS__))
#define EVP_PKEY_derive_set_peer(...) (vp_fault() ? 0 : EVP_PKEY_derive_set_peer(__VA_ARGS__))
#define EVP_PKEY_new(...) (vp_fault() ? 0 : EVP_PKEY_new(__VA_ARGS__))
#define HMAC(...) (vp_fault() ? 0 : HMAC(__VA_ARGS__))
#define RAND_bytes(...) (vp_fault() ? 0 : RAND_bytes(__VA_ARGS__))
#define d2i_ECDSA_SIG(...) (vp_fault() ? 0 : d2i_ECDSA_SIG(__VA_ARGS__))
#define i2d_ECDSA_SIG(...) (vp_fault() ? 0 : i2d_ECDSA_SIG(__VA_ARGS__))
#define i2d_ECPrivateKey(...) (vp_fault() ? 0 : i2d_ECPrivateKey(__VA_ARGS__))
#define i2o_ECPublicKey(...) (vp_fault() ? 0 : i2o_ECPublicKey(__VA_ARGS__))
#define EVP_PKEY_get0_EC_KEY(...) (vp_fault() ? 0 : EVP_PKEY_get0_EC_KEY(__VA_ARGS__))
#define BN_bn2binpad(...) (vp_fault() ? -1 : BN_bn2binpad(__VA_ARGS__))
#define libscrypt_scrypt(...) (vp_fault() ? -1 : libscrypt_scrypt(__VA_ARGS__))
#define vp_crypt_rn(...) (vp_fault() ? 0 : vp_crypt_rn(__VA_ARGS__))
#define vp_crypt_gensalt_rn(...) (vp_fault() ? 0 : vp_crypt_gensalt_rn(__VA_ARGS__))
#endif
