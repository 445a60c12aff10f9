/* Finds the (key, hash) pairs of harness/specials.hpp: signatures that need
 * many attempts at a low R, or whose r or s starts with two zero bytes.      */
#include <openssl/sha.h>
#include <secp256k1.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int argc, char **argv) {
  secp256k1_context *c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
  unsigned char k[32], h[32], e[32], o[64];
  SHA256((unsigned char *)argv[1], strlen(argv[1]), k);
  int best = 11;
  for (long i = 0; i < atol(argv[2]); i++) {
    SHA256((unsigned char *)&i, 8, h);
    h[0] ^= k[0];
    secp256k1_ecdsa_signature s;
    unsigned n = 0;
    memset(e, 0, 32);
    for (;; n++) {
      e[0] = n; e[1] = n >> 8;
      secp256k1_ecdsa_sign(c, &s, h, k, 0, n ? e : 0);
      secp256k1_ecdsa_signature_serialize_compact(c, o, &s);
      if (o[0] < 0x80) break;
    }
    int r0 = !o[0] && !o[1], s0 = !o[32] && !o[33], sm = o[0] == 0 && o[1] >= 0x80 && o[32] == 0 && o[33] >= 0x80;
    if ((int)n > best || r0 || s0 || sm) {
      if ((int)n > best) best = n;
      printf("%u%s%s%s ", n, r0 ? "r" : "", s0 ? "s" : "", sm ? "m" : "");
      for (int j = 0; j < 32; j++) printf("%02x", k[j]);
      printf(" ");
      for (int j = 0; j < 32; j++) printf("%02x", h[j]);
      printf("\n");
      fflush(stdout);
    }
  }
}
