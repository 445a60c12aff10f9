// Independent reference implementations: what each public function should
// answer, written from the standards (RFC 4648, 6234, 2104, 6979, BIP32, BIP173,
// SEC1, Bitcoin Core's VARINT and lax DER rules) on top of OpenSSL's digests and
// elliptic-curve arithmetic.  Nothing here uses the library under test.
#pragma once
#include "core.hpp"

namespace ref {
void init();
// digests
bytes sha1(const bytes &m);
bytes sha256(const bytes &m);
bytes sha512(const bytes &m);
bytes rmd160(const bytes &m);
bytes hmac256(const bytes &k, const bytes &m);
bytes hmac512(const bytes &k, const bytes &m);
inline bytes hash256(const bytes &m) { return sha256(sha256(m)); }
inline bytes hash160(const bytes &m) { return rmd160(sha256(m)); }
// codecs
std::string hex_enc(const bytes &b, bool upper);
bytes hex_dec(const std::string &s);
std::string hex_dump(const bytes &b, bool upper);
std::string b32_enc(const bytes &b);
bytes b32_raw_enc(const bytes &b);
size_t b32_len(size_t symbols);
bytes b32_dec(const std::string &s);
bytes b32_raw_dec(const bytes &s);
std::string b64_enc(const bytes &b, bool url);
bytes b64_dec(const std::string &s, bool url);
size_t b64_dec_len(const std::string &s, bool url);
std::string b58_enc(const bytes &b);
bool b58_dec(const std::string &s, bytes &out);  // false: not base58
std::string b58c_enc(const bytes &prefix, const bytes &payload);
bool b58c_dec(const std::string &s, bytes &out);
std::string bech_enc(const std::string &hrp, const bytes &data);
// the same with another final constant, or a checksum of another make (not BIP173's)
enum { BECH_PLAIN, BECH_NO_HIGH, BECH_NO_ZERO, BECH_NO_HRP, BECH_INIT0, BECH_REVERSED, BECH_KINDS };
std::string bech_enc_with(const std::string &hrp, const bytes &data, uint32_t constant, int kind = BECH_PLAIN);
// checksums of another make than base58check's
constexpr int B58C_KINDS = 9;
bytes b58c_foreign(const bytes &body, int kind);
bool bech_dec(const std::string &s, std::string &hrp, bytes &data);
bytes varint_enc(uint64_t v);
size_t varint_dec(const bytes &b, uint64_t &v);  // bytes used, 0: refused
bytes zigzag_enc(int64_t v);
size_t zigzag_dec(const bytes &b, int64_t &v);
// chain parameters
struct Params {
  int builtin = -1;  // 0 main, 1 test, 2 reg, -1 custom
  bytes pk, sc, sk, xpub, xprv;
  std::string hrp;
};
const Params &builtin(int i);
std::string addr_pk(const bytes &id, const Params &p);
std::string addr_sc(const bytes &id, const Params &p);
std::string addr_segwit(int version, const bytes &prog, const Params &p);
enum { BAD, PUBKEY, SCRIPT, W0KEY, W0SCRIPT, WUNK };
int addr_dec(const std::string &s, const Params &p, bytes &out);
// keys
bool key_valid(const bytes &k);
bool pub_parse(const bytes &enc, bytes &canon65);            // on curve?
bytes pub_of(const bytes &k, bool compressed);
bytes pub_convert(const bytes &enc, bool compressed);
std::string wif(const bytes &k, bool compressed, const Params &p);
bool wif_dec(const std::string &s, const Params &p, bytes &k, bool &compressed);
bytes key_der(const bytes &k, bool compressed);
bool key_der_dec(const bytes &der, bytes &k);
// when not empty, taken for the left half of the HMAC (see the interposed tweak functions in mon.cpp)
extern thread_local bytes forced_tweak;
bool ckd_priv(const bytes &k, const bytes &c, uint32_t i, bytes &ko, bytes &co);
bool ckd_pub(const bytes &P33, const bytes &c, uint32_t i, bytes &Po, bytes &co);
bytes bip32_hash(const bytes &c, uint32_t i, uint8_t h, const bytes &d);
void sign(const bytes &k, const bytes &h, bytes &rs, int *attempts = nullptr);
bool verify(const bytes &pub, const bytes &h, const bytes &rs);
// the public key for which (x(R) mod n, s) signs h, R being the point R33; false if there is none
bool forge(const bytes &R33, const bytes &s, const bytes &h, bytes &pub65, bytes &rs);
bytes sig_der(const bytes &rs);
bool sig_lax(const bytes &der, bytes &rs);
bytes scalar_neg(const bytes &s);   // n - s
bytes scalar_add(const bytes &a, const bytes &b);
extern const bytes N, P, HALF_N;  // big-endian constants
bytes num32(uint64_t v);
bytes add_small(const bytes &a, int64_t d);  // 32-byte big-endian a + d
// extended keys
struct Ext {
  uint8_t depth = 0;
  uint32_t fp = 0, child = 0;
  bytes code;
};
bytes ext_payload(const Ext &e, const bytes &tail33);
}  // namespace ref
