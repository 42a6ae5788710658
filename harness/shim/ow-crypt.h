/* Stand-in for the missing third-party submodule crypt_blowfish (same prototypes). */
#ifndef VP_OW_CRYPT_H
#define VP_OW_CRYPT_H
#ifdef __cplusplus
extern "C" {
#endif
char *vp_crypt_rn(const char *key, const char *setting, void *data, int size);
char *vp_crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int output_size);
#define crypt_rn vp_crypt_rn
#define crypt_gensalt_rn vp_crypt_gensalt_rn
#ifdef __cplusplus
}
#endif
#endif
