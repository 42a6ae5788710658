/*
 * Stand-ins for the two third-party submodules that are empty in this sandbox (libscrypt and
 * crypt_blowfish).  Same contracts, computed by OpenSSL's scrypt and by libcrypt's bcrypt.
 * Unless VP_REAL_KDF=1 the cost handed to the primitive is scaled down (the *relative* cost is
 * kept, so that a derivation with another cost still gives another key); the cost the library
 * asked for is recorded in vp_last_kdf so that the harness can report it.
 */
#define _GNU_SOURCE
#include <crypt.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <openssl/evp.h>
#include "libscrypt.h"

uint64_t vp_last_kdf[4];    /* kind (1 scrypt, 2 bcrypt), N or cost, r, p */

static int real_kdf(void) { const char *e = getenv("VP_REAL_KDF"); return e && *e == '1'; }

int libscrypt_scrypt(const uint8_t *passwd, size_t passwdlen, const uint8_t *salt, size_t saltlen,
                     uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen)
{
    vp_last_kdf[0] = 1; vp_last_kdf[1] = N; vp_last_kdf[2] = r; vp_last_kdf[3] = p;
    if (N < 2 || (N & (N - 1)) || !r || !p) return -1;
    if (!real_kdf()) { N >>= 12; if (N < 2) N = 2; }
    return EVP_PBE_scrypt((const char *)passwd, passwdlen, salt, saltlen, N, r, p,
                          (uint64_t)1 << 31, buf, buflen) == 1 ? 0 : -1;
}

char *vp_crypt_rn(const char *key, const char *setting, void *data, int size)
{
    if (!key || !setting || !data || strlen(setting) < 29 || size < 61) return NULL;
    char s[64]; memset(s, 0, sizeof s); memcpy(s, setting, 29);
    vp_last_kdf[0] = 2; vp_last_kdf[1] = (uint64_t)atoi(s + 4); vp_last_kdf[2] = vp_last_kdf[3] = 0;
    char cost[2] = { s[4], s[5] };
    if (!real_kdf()) { s[4] = '0'; s[5] = '4'; }
    struct crypt_data *cd = calloc(1, sizeof *cd);
    if (!cd) return NULL;
    char *r = crypt_r(key, s, cd);
    if (!r || r[0] == '*' || strlen(r) != 60) { free(cd); return NULL; }
    memcpy(data, r, 61);
    ((char *)data)[4] = cost[0]; ((char *)data)[5] = cost[1];
    free(cd);
    return (char *)data;
}

char *vp_crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int output_size)
{
    if (!input || size < 16 || output_size < 30) return NULL;
    return crypt_gensalt_rn(prefix, count, input, size, output, output_size);
}
