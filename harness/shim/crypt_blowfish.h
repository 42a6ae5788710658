#ifndef VP_CRYPT_BLOWFISH_H
#define VP_CRYPT_BLOWFISH_H
#endif
