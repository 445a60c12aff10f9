/* C03: the length functions of the headers, compiled as a C user compiles them
 * (the rest of the harness is C++). */
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/hex.h>
#include <stddef.h>

#define F0(f) size_t c_##f(void) { return f(); }
#define F1(f) size_t c_##f(size_t n) { return f(n); }
#define F2(f) size_t c_##f(size_t n, size_t m) { return f(n, m); }
F1(fingera_to_hex_length)
F1(fingera_from_hex_length)
F1(fingera_to_base32_length)
F1(fingera_to_base64_length)
F1(fingera_to_base64_urlsafe_length)
F1(fingera_from_base64_urlsafe_length)
F1(fingera_to_base58_length)
F1(fingera_from_base58_length)
F2(fingera_to_base58_check_length)
F1(fingera_from_base58_check_length)
F2(fingera_bech32_encode_length)
F0(fingera_key_string_max_length)
F0(fingera_exkey_string_max_length)
size_t c_fingera_from_base64_length(const char *s, size_t n) { return fingera_from_base64_length(s, n); }
