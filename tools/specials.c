/* Finds the keys of harness/specials.hpp: scalars whose public key, key id or
 * signature has leading zero bytes that random keys do not show in a run.
 *   gcc -O2 -I/repo/include tools/specials.c -lsecp256k1 -lcrypto -o s
 *   ./s START COUNT                                                          */
#include <openssl/sha.h>
#include <openssl/evp.h>
#include <openssl/provider.h>
#include <secp256k1.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static EVP_MD *rmd, *s256;
static EVP_MD_CTX *cx;
static void h160(const unsigned char *p, size_t n, unsigned char *o) {
  unsigned char d[32];
  EVP_DigestInit_ex(cx, s256, 0); EVP_DigestUpdate(cx, p, n); EVP_DigestFinal_ex(cx, d, 0);
  EVP_DigestInit_ex(cx, rmd, 0); EVP_DigestUpdate(cx, d, 32); EVP_DigestFinal_ex(cx, o, 0);
}
static int lz(const unsigned char *p) { int z = 0; while (z < 20 && !p[z]) z++; return z; }
int main(int argc, char **argv) {
  OSSL_PROVIDER_load(0, "legacy"); OSSL_PROVIDER_load(0, "default");
  rmd = EVP_MD_fetch(0, "RIPEMD160", 0); s256 = EVP_MD_fetch(0, "SHA256", 0); cx = EVP_MD_CTX_new();
  secp256k1_context *c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
  unsigned char k[32], one[32] = {0};
  one[31] = 1;
  SHA256((unsigned char *)argv[1], strlen(argv[1]), k);
  long n = atol(argv[2]);
  secp256k1_pubkey p;
  if (!secp256k1_ec_pubkey_create(c, &p, k)) return 1;
  for (long i = 0; i < n; i++) {
    unsigned char u[65], q[33], a[20], b[20];
    size_t l = 65;
    secp256k1_ec_pubkey_serialize(c, u, &l, &p, SECP256K1_EC_UNCOMPRESSED);
    memcpy(q + 1, u + 1, 32);
    q[0] = 2 | (u[64] & 1);
    h160(q, 33, a);
    h160(u, 65, b);
    int x = lz(u + 1), y = lz(u + 33), ka = lz(a), kb = lz(b);
    int fx = u[32] == 0 && u[31] == 0, ft = a[0] == 0xff && a[1] == 0xff && a[2] == 0xff;
    if (x >= 2 || y >= 2 || ka >= 2 || kb >= 2 || fx || ft) {
      printf("%s%s%s%s%s%s ", x >= 2 ? "x" : "", y >= 2 ? "y" : "", ka >= 2 ? "c" : "", kb >= 2 ? "u" : "", fx ? "e" : "", ft ? "f" : "");
      printf("%d ", x > y ? (x > ka ? (x > kb ? x : kb) : (ka > kb ? ka : kb)) : (y > ka ? (y > kb ? y : kb) : (ka > kb ? ka : kb)));
      for (int j = 0; j < 32; j++) printf("%02x", k[j]);
      printf("\n");
      fflush(stdout);
    }
    if (!secp256k1_ec_seckey_tweak_add(c, k, one) || !secp256k1_ec_pubkey_tweak_add(c, &p, one)) return 1;
  }
}
