/* libsecp256k1 is a prebuilt, uninstrumented library: these link-time wrappers
 * tell ThreadSanitizer what each call reads and writes, including the context
 * (reading it is shared, creating, randomising or destroying it is not). */
#include <secp256k1.h>
#include <string.h>

void __tsan_read_range(void *p, unsigned long n);
void __tsan_write_range(void *p, unsigned long n);
#define RD(p, n) do { if (p) __tsan_read_range((void *)(p), (n)); } while (0)
#define WR(p, n) do { if (p) __tsan_write_range((void *)(p), (n)); } while (0)
#define C const secp256k1_context *
#define CTX(c) do { if ((c) != secp256k1_context_static) RD(c, 8); } while (0)

unsigned long wrap_secp_calls;

int __real_secp256k1_context_randomize(secp256k1_context *c, const unsigned char *s);
int __wrap_secp256k1_context_randomize(secp256k1_context *c, const unsigned char *s) { WR(c, 8); RD(s, 32); return __real_secp256k1_context_randomize(c, s); }
void __real_secp256k1_context_destroy(secp256k1_context *c);
void __wrap_secp256k1_context_destroy(secp256k1_context *c) { WR(c, 8); __real_secp256k1_context_destroy(c); }
void __real_secp256k1_context_set_illegal_callback(secp256k1_context *c, void (*f)(const char *, void *), const void *d);
void __wrap_secp256k1_context_set_illegal_callback(secp256k1_context *c, void (*f)(const char *, void *), const void *d) { WR(c, 8); __real_secp256k1_context_set_illegal_callback(c, f, d); }
void __real_secp256k1_context_set_error_callback(secp256k1_context *c, void (*f)(const char *, void *), const void *d);
void __wrap_secp256k1_context_set_error_callback(secp256k1_context *c, void (*f)(const char *, void *), const void *d) { WR(c, 8); __real_secp256k1_context_set_error_callback(c, f, d); }

int __real_secp256k1_ec_seckey_verify(C c, const unsigned char *k);
int __wrap_secp256k1_ec_seckey_verify(C c, const unsigned char *k) { CTX(c); RD(k, 32); return __real_secp256k1_ec_seckey_verify(c, k); }
#define TWEAK(name)                                                                     \
  int __real_secp256k1_##name(C c, unsigned char *k, const unsigned char *t);           \
  int __wrap_secp256k1_##name(C c, unsigned char *k, const unsigned char *t) {          \
    CTX(c); WR(k, 32); RD(t, 32); return __real_secp256k1_##name(c, k, t); }
TWEAK(ec_privkey_tweak_add)
TWEAK(ec_seckey_tweak_add)
TWEAK(ec_privkey_tweak_mul)
TWEAK(ec_seckey_tweak_mul)
int __real_secp256k1_ec_pubkey_create(C c, secp256k1_pubkey *p, const unsigned char *k);
int __wrap_secp256k1_ec_pubkey_create(C c, secp256k1_pubkey *p, const unsigned char *k) { CTX(c); WR(p, 64); RD(k, 32); return __real_secp256k1_ec_pubkey_create(c, p, k); }
int __real_secp256k1_ec_pubkey_parse(C c, secp256k1_pubkey *p, const unsigned char *b, size_t n);
int __wrap_secp256k1_ec_pubkey_parse(C c, secp256k1_pubkey *p, const unsigned char *b, size_t n) { CTX(c); WR(p, 64); RD(b, n); return __real_secp256k1_ec_pubkey_parse(c, p, b, n); }
int __real_secp256k1_ec_pubkey_serialize(C c, unsigned char *o, size_t *n, const secp256k1_pubkey *p, unsigned int f);
int __wrap_secp256k1_ec_pubkey_serialize(C c, unsigned char *o, size_t *n, const secp256k1_pubkey *p, unsigned int f) { CTX(c); RD(p, 64); WR(n, 8); WR(o, *n < ((f & 256) ? 33 : 65) ? *n : ((f & 256) ? 33 : 65)); return __real_secp256k1_ec_pubkey_serialize(c, o, n, p, f); }
int __real_secp256k1_ec_pubkey_tweak_add(C c, secp256k1_pubkey *p, const unsigned char *t);
int __wrap_secp256k1_ec_pubkey_tweak_add(C c, secp256k1_pubkey *p, const unsigned char *t) { CTX(c); WR(p, 64); RD(t, 32); return __real_secp256k1_ec_pubkey_tweak_add(c, p, t); }
int __real_secp256k1_ecdsa_sign(C c, secp256k1_ecdsa_signature *s, const unsigned char *h, const unsigned char *k, secp256k1_nonce_function f, const void *d);
int __wrap_secp256k1_ecdsa_sign(C c, secp256k1_ecdsa_signature *s, const unsigned char *h, const unsigned char *k, secp256k1_nonce_function f, const void *d) { CTX(c); WR(s, 64); RD(h, 32); RD(k, 32); if (f == 0 || f == secp256k1_nonce_function_rfc6979 || f == secp256k1_nonce_function_default) RD(d, 32); return __real_secp256k1_ecdsa_sign(c, s, h, k, f, d); }
int __real_secp256k1_ecdsa_verify(C c, const secp256k1_ecdsa_signature *s, const unsigned char *h, const secp256k1_pubkey *p);
int __wrap_secp256k1_ecdsa_verify(C c, const secp256k1_ecdsa_signature *s, const unsigned char *h, const secp256k1_pubkey *p) { CTX(c); RD(s, 64); RD(h, 32); RD(p, 64); return __real_secp256k1_ecdsa_verify(c, s, h, p); }
int __real_secp256k1_ecdsa_signature_normalize(C c, secp256k1_ecdsa_signature *o, const secp256k1_ecdsa_signature *i);
int __wrap_secp256k1_ecdsa_signature_normalize(C c, secp256k1_ecdsa_signature *o, const secp256k1_ecdsa_signature *i) { CTX(c); RD(i, 64); WR(o, 64); return __real_secp256k1_ecdsa_signature_normalize(c, o, i); }
int __real_secp256k1_ecdsa_signature_parse_compact(C c, secp256k1_ecdsa_signature *s, const unsigned char *i);
int __wrap_secp256k1_ecdsa_signature_parse_compact(C c, secp256k1_ecdsa_signature *s, const unsigned char *i) { CTX(c); WR(s, 64); RD(i, 64); return __real_secp256k1_ecdsa_signature_parse_compact(c, s, i); }
int __real_secp256k1_ecdsa_signature_serialize_compact(C c, unsigned char *o, const secp256k1_ecdsa_signature *s);
int __wrap_secp256k1_ecdsa_signature_serialize_compact(C c, unsigned char *o, const secp256k1_ecdsa_signature *s) { CTX(c); RD(s, 64); WR(o, 64); return __real_secp256k1_ecdsa_signature_serialize_compact(c, o, s); }
int __real_secp256k1_ecdsa_signature_serialize_der(C c, unsigned char *o, size_t *n, const secp256k1_ecdsa_signature *s);
int __wrap_secp256k1_ecdsa_signature_serialize_der(C c, unsigned char *o, size_t *n, const secp256k1_ecdsa_signature *s) {
  size_t cap = *n;
  CTX(c); RD(s, 64); WR(n, 8);
  int r = __real_secp256k1_ecdsa_signature_serialize_der(c, o, n, s);
  WR(o, *n < cap ? *n : cap);
  return r;
}
