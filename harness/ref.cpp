#define OPENSSL_SUPPRESS_DEPRECATED
#include "ref.hpp"

#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/obj_mac.h>
#include <openssl/ripemd.h>
#include <openssl/sha.h>

namespace ref {

static EC_GROUP *G;
static thread_local BN_CTX *C;
static BN_CTX *ctx() {
  if (!C) C = BN_CTX_new();
  return C;
}
static BIGNUM *bn_n, *bn_p;

static bytes unhex(const char *s) { return hex_dec(s); }
const bytes N = unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
const bytes P = unhex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
const bytes HALF_N = unhex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0");

void init() {
  G = EC_GROUP_new_by_curve_name(NID_secp256k1);
  EC_GROUP_precompute_mult(G, ctx());
  bn_n = BN_bin2bn(N.data(), 32, 0);
  bn_p = BN_bin2bn(P.data(), 32, 0);
}

// ----------------------------------------------------------------- digests ----
bytes sha1(const bytes &m) { bytes o(20); ::SHA1(m.data(), m.size(), o.data()); return o; }
bytes sha256(const bytes &m) { bytes o(32); ::SHA256(m.data(), m.size(), o.data()); return o; }
bytes sha512(const bytes &m) { bytes o(64); ::SHA512(m.data(), m.size(), o.data()); return o; }
bytes rmd160(const bytes &m) { bytes o(20); ::RIPEMD160(m.data(), m.size(), o.data()); return o; }

static bytes hmac(const bytes &k0, const bytes &m, size_t block, bytes (*h)(const bytes &)) {
  bytes k = k0.size() > block ? h(k0) : k0;
  k.resize(block, 0);
  bytes i(block), o(block);
  for (size_t j = 0; j < block; j++) { i[j] = k[j] ^ 0x36; o[j] = k[j] ^ 0x5c; }
  i.insert(i.end(), m.begin(), m.end());
  bytes d = h(i);
  o.insert(o.end(), d.begin(), d.end());
  return h(o);
}
bytes hmac256(const bytes &k, const bytes &m) { return hmac(k, m, 64, sha256); }
bytes hmac512(const bytes &k, const bytes &m) { return hmac(k, m, 128, sha512); }

// ------------------------------------------------------------------ codecs ----
std::string hex_enc(const bytes &b, bool upper) {
  std::string s;
  for (uint8_t x : b) {
    char t[3];
    snprintf(t, 3, upper ? "%02X" : "%02x", x);
    s += t;
  }
  return s;
}
static int hexv(uint8_t c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
bytes hex_dec(const std::string &s) {
  bytes o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) {
    int a = hexv((uint8_t)s[i]), b = hexv((uint8_t)s[i + 1]);
    if (a < 0 || b < 0) break;
    o.push_back((uint8_t)(a * 16 + b));
  }
  return o;
}
std::string hex_dump(const bytes &b, bool upper) {
  std::string s;
  for (size_t i = 0; i < b.size(); i++) {
    if (i && i % 4 == 0) s += ' ';
    if (i && i % 8 == 0) s += ' ';
    if (i && i % 16 == 0) s += ' ';
    if (i && i % 32 == 0) s += '\n';
    s += hex_enc(bytes(1, b[i]), upper);
  }
  return s + "\n";
}

// Generic bit regrouping.
static bytes regroup(const bytes &in, int from, int to, bool pad) {
  bytes o;
  uint32_t acc = 0;
  int nb = 0;
  for (uint8_t x : in) {
    acc = (acc << from) | x;
    nb += from;
    while (nb >= to) {
      nb -= to;
      o.push_back((uint8_t)((acc >> nb) & ((1u << to) - 1)));
    }
    acc &= (1u << nb) - 1;
  }
  if (pad && nb) o.push_back((uint8_t)((acc << (to - nb)) & ((1u << to) - 1)));
  return o;
}
static const char *A32 = "abcdefghijklmnopqrstuvwxyz234567";
static const char *A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

bytes b32_raw_enc(const bytes &b) { return regroup(b, 8, 5, true); }
std::string b32_enc(const bytes &b) {
  std::string s;
  for (uint8_t v : b32_raw_enc(b)) s += A32[v];
  while (s.size() % 8) s += '=';
  return s;
}
// Announced byte count for a number of symbols; tails of 1, 3 and 6 symbols
// cannot come from an encoder and carry nothing.
size_t b32_len(size_t n) {
  static const int t[8] = {0, 0, 1, 0, 2, 3, 0, 4};
  return n / 8 * 5 + (size_t)t[n % 8];
}
static bytes b32_groups(const std::vector<int> &v) {
  bytes o;
  for (size_t i = 0; i < v.size(); i += 8) {
    size_t n = v.size() - i < 8 ? v.size() - i : 8;
    bytes g;
    for (size_t j = 0; j < n; j++) {
      if (v[i + j] < 0) return o;
      g.push_back((uint8_t)v[i + j]);
    }
    bytes r = regroup(g, 5, 8, false);
    r.resize(b32_len(n));
    o.insert(o.end(), r.begin(), r.end());
  }
  return o;
}
bytes b32_dec(const std::string &s) {
  std::vector<int> v;
  for (char c : s) {
    if (c == '=') break;
    int x = -1;
    for (int k = 0; k < 32; k++)
      if (c == A32[k] || (c >= 'A' && c <= 'Z' && c - 'A' + 'a' == A32[k])) x = k;
    v.push_back(x);
  }
  return b32_groups(v);
}
bytes b32_raw_dec(const bytes &s) {
  std::vector<int> v;
  for (uint8_t c : s) v.push_back(c < 32 ? c : -1);
  return b32_groups(v);
}

std::string b64_enc(const bytes &b, bool url) {
  std::string s;
  for (uint8_t v : regroup(b, 8, 6, true)) {
    char c = A64[v];
    if (url && c == '+') c = '-';
    if (url && c == '/') c = '_';
    s += c;
  }
  if (!url) while (s.size() % 4) s += '=';
  return s;
}
static std::string b64_strip(const std::string &s0, bool url) {
  std::string s = s0;
  if (!url) for (int i = 0; i < 2 && !s.empty() && s.back() == '='; i++) s.pop_back();
  return s;
}
size_t b64_dec_len(const std::string &s0, bool url) {
  size_t n = b64_strip(s0, url).size();
  return n / 4 * 3 + (n % 4 == 2 ? 1 : n % 4 == 3 ? 2 : 0);
}
bytes b64_dec(const std::string &s0, bool url) {
  std::string s = b64_strip(s0, url);
  bytes o;
  for (size_t i = 0; i < s.size(); i += 4) {
    size_t n = s.size() - i < 4 ? s.size() - i : 4;
    bytes g;
    for (size_t j = 0; j < n; j++) {
      char c = s[i + j];
      if (url && (c == '+' || c == '/')) return o;
      if (url && c == '-') c = '+';
      else if (url && c == '_') c = '/';
      const char *q = c ? strchr(A64, c) : nullptr;
      if (!q) return o;
      g.push_back((uint8_t)(q - A64));
    }
    bytes r = regroup(g, 6, 8, false);
    o.insert(o.end(), r.begin(), r.end());
  }
  return o;
}

// base58 through schoolbook big numbers with 32-bit limbs
static const char *A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
std::string b58_enc(const bytes &b) {
  size_t z = 0;
  while (z < b.size() && b[z] == 0) z++;
  // little-endian limbs base 58^5
  std::vector<uint32_t> v;
  const uint32_t BASE = 58u * 58 * 58 * 58 * 58;
  for (size_t i = z; i < b.size(); i++) {
    uint64_t c = b[i];
    for (auto &x : v) { c += (uint64_t)x << 8; x = (uint32_t)(c % BASE); c /= BASE; }
    if (c) v.push_back((uint32_t)c);
  }
  std::string r;
  for (size_t i = 0; i < v.size(); i++) {
    uint32_t x = v[i];
    for (int k = 0; k < 5; k++) { r += A58[x % 58]; x /= 58; }
  }
  while (!r.empty() && r.back() == '1') r.pop_back();
  r.append(z, '1');
  return std::string(r.rbegin(), r.rend());
}
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool b58_dec(const std::string &s, bytes &out) {
  out.clear();
  size_t a = 0, e = s.size();
  while (a < e && space(s[a])) a++;
  while (e > a && space(s[e - 1])) e--;
  size_t z = 0;
  while (a + z < e && s[a + z] == '1') z++;
  std::vector<uint32_t> v;  // little-endian base 2^32
  for (size_t i = a + z; i < e; i++) {
    const char *q = s[i] ? strchr(A58, s[i]) : nullptr;
    if (!q) return false;
    uint64_t c = (uint64_t)(q - A58);
    for (auto &x : v) { c += (uint64_t)x * 58; x = (uint32_t)c; c >>= 32; }
    if (c) v.push_back((uint32_t)c);
  }
  bytes r;
  for (uint32_t x : v) for (int k = 0; k < 4; k++) { r.push_back((uint8_t)x); x >>= 8; }
  while (!r.empty() && r.back() == 0) r.pop_back();
  out.assign(z, 0);
  out.insert(out.end(), r.rbegin(), r.rend());
  return true;
}
static bytes cat(const bytes &a, const bytes &b) { bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
std::string b58c_enc(const bytes &prefix, const bytes &payload) {
  bytes d = cat(prefix, payload), h = hash256(d);
  d.insert(d.end(), h.begin(), h.begin() + 4);
  return b58_enc(d);
}
bool b58c_dec(const std::string &s, bytes &out) {
  bytes d;
  if (!b58_dec(s, d) || d.size() < 4) return false;
  bytes body(d.begin(), d.end() - 4), h = hash256(body);
  if (memcmp(h.data(), &d[d.size() - 4], 4) != 0) return false;
  out = body;
  return true;
}

bytes b58c_foreign(const bytes &body, int kind) {
  bytes h;
  switch (kind) {
    case 0: h = sha256(body); break;                       // hashed once
    case 1: h = sha256(hash256(body)); break;              // three times
    case 2: h = hash256(body); h.erase(h.begin(), h.end() - 4); break;   // the other end
    case 3: h = hash256(body); std::reverse(h.begin(), h.begin() + 4); break;
    case 4: h = hash160(body); break;
    case 5: h = bytes(4, 0); break;
    case 6: h = hash256(body.empty() ? body : bytes(body.begin() + 1, body.end())); break;  // without the first byte
    case 7: h = bytes(4, 0xff); break;
    default: h = sha512(body); break;
  }
  return cat(body, bytes(h.begin(), h.begin() + 4));
}

static const char *AB = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static uint32_t polymod(const bytes &v) {
  static const uint32_t gen[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
  uint32_t c = 1;
  for (uint8_t x : v) {
    uint32_t b = c >> 25;
    c = ((c & 0x1ffffff) << 5) ^ x;
    for (int i = 0; i < 5; i++) if (b >> i & 1) c ^= gen[i];
  }
  return c;
}
static bytes expand(const std::string &h) {
  bytes v;
  for (char c : h) v.push_back((uint8_t)c >> 5);
  v.push_back(0);
  for (char c : h) v.push_back((uint8_t)c & 31);
  return v;
}
std::string bech_enc_with(const std::string &hrp, const bytes &data, uint32_t constant, int kind) {
  bytes e = expand(hrp);
  if (kind == BECH_NO_HIGH) e.erase(e.begin(), e.begin() + (long)hrp.size());
  if (kind == BECH_NO_ZERO) e.erase(e.begin() + (long)hrp.size());
  if (kind == BECH_NO_HRP) e.clear();
  bytes v = cat(e, data);
  v.insert(v.end(), 6, 0);
  if (kind == BECH_INIT0) {   // as if the register started at 0 (the code is linear)
    constant ^= polymod(bytes(v.size(), 0));
  }
  uint32_t m = polymod(v) ^ constant;
  std::string s = hrp + "1";
  for (uint8_t x : data) s += AB[x & 31];
  for (int i = 0; i < 6; i++) s += AB[m >> (kind == BECH_REVERSED ? 5 * i : 25 - 5 * i) & 31];
  return s;
}
std::string bech_enc(const std::string &hrp, const bytes &data) { return bech_enc_with(hrp, data, 1); }
bool bech_dec(const std::string &s0, std::string &hrp, bytes &data) {
  hrp.clear();
  data.clear();
  if (s0.size() > 90) return false;
  bool lo = false, up = false;
  std::string s;
  for (unsigned char c : s0) {
    if (c < 33 || c > 126) return false;
    if (c >= 'a' && c <= 'z') lo = true;
    if (c >= 'A' && c <= 'Z') { up = true; c = (unsigned char)(c + 32); }
    s += (char)c;
  }
  if (lo && up) return false;
  size_t p = s.rfind('1');
  if (p == std::string::npos || p < 1 || s.size() - p - 1 < 6) return false;
  bytes v;
  for (size_t i = p + 1; i < s.size(); i++) {
    const char *q = strchr(AB, s[i]);
    if (!q) return false;
    v.push_back((uint8_t)(q - AB));
  }
  hrp = s.substr(0, p);
  if (polymod(cat(expand(hrp), v)) != 1) return false;
  data.assign(v.begin(), v.end() - 6);
  return true;
}

// Bitcoin Core: number -> most significant group first, minus one per extra byte.
bytes varint_enc(uint64_t v) {
  bytes r;
  r.push_back((uint8_t)(v & 0x7f));
  while (v > 0x7f) {
    v = (v >> 7) - 1;
    r.push_back((uint8_t)((v & 0x7f) | 0x80));
  }
  return bytes(r.rbegin(), r.rend());
}
size_t varint_dec(const bytes &b, uint64_t &v) {
  unsigned __int128 x = 0;
  for (size_t i = 0; i < b.size(); i++) {
    x = (x << 7) | (b[i] & 0x7f);
    if (b[i] & 0x80) x++;
    if (x > (unsigned __int128)UINT64_MAX) return 0;
    if (!(b[i] & 0x80)) { v = (uint64_t)x; return i + 1; }
  }
  return 0;
}
bytes zigzag_enc(int64_t v) {
  unsigned __int128 m = v < 0 ? (unsigned __int128)(-(__int128)v) : (unsigned __int128)v;
  return varint_enc((uint64_t)(m << 1) | (v < 0));
}
size_t zigzag_dec(const bytes &b, int64_t &v) {
  uint64_t u;
  size_t n = varint_dec(b, u);
  if (!n) return 0;
  if (u == 1) v = INT64_MIN;  // the only magnitude whose doubling wraps
  else v = (u & 1) ? -(int64_t)(u >> 1) : (int64_t)(u >> 1);
  return n;
}

// --------------------------------------------------------------- addresses ----
const Params &builtin(int i) {
  static const Params p[3] = {
      {0, {0x00}, {0x05}, {0x80}, {0x04, 0x88, 0xB2, 0x1E}, {0x04, 0x88, 0xAD, 0xE4}, "bc"},
      {1, {0x6F}, {0xC4}, {0xEF}, {0x04, 0x35, 0x87, 0xCF}, {0x04, 0x35, 0x83, 0x94}, "tb"},
      {2, {0x6F}, {0xC4}, {0xEF}, {0x04, 0x35, 0x87, 0xCF}, {0x04, 0x35, 0x83, 0x94}, "bcrt"}};
  return p[i];
}
std::string addr_pk(const bytes &id, const Params &p) { return b58c_enc(p.pk, id); }
std::string addr_sc(const bytes &id, const Params &p) { return b58c_enc(p.sc, id); }
std::string addr_segwit(int version, const bytes &prog, const Params &p) {
  return bech_enc(p.hrp, cat(bytes(1, (uint8_t)version), b32_raw_enc(prog)));
}
static bool starts(const bytes &b, const bytes &p) { return b.size() >= p.size() && std::equal(p.begin(), p.end(), b.begin()); }
int addr_dec(const std::string &s, const Params &p, bytes &out) {
  bytes d;
  out.clear();
  if (b58c_dec(s, d)) {
    if (d.size() && starts(d, p.pk)) { out.assign(d.begin() + p.pk.size(), d.end()); return PUBKEY; }
    if (d.size() && starts(d, p.sc)) { out.assign(d.begin() + p.sc.size(), d.end()); return SCRIPT; }
  }
  std::string h;
  if (!bech_dec(s, h, d) || h != p.hrp || d.empty()) return BAD;
  bytes sym(d.begin() + 1, d.end());
  size_t bits = sym.size() * 5;
  bytes prog = regroup(sym, 5, 8, false);
  if (bits % 8 >= 5) return BAD;
  if (b32_raw_enc(prog) != sym) return BAD;  // padding not zero
  if (d[0] > 16 || prog.size() < 2 || prog.size() > 40) return BAD;
  if (d[0] == 0) {
    if (prog.size() != 20 && prog.size() != 32) return BAD;
    out = prog;
    return prog.size() == 20 ? W0KEY : W0SCRIPT;
  }
  out = cat(bytes(1, d[0]), prog);
  return WUNK;
}

// -------------------------------------------------------------------- keys ----
static BIGNUM *bn(const bytes &b) { return BN_bin2bn(b.data(), (int)b.size(), 0); }
static bytes bn32(const BIGNUM *x) { bytes o(32); BN_bn2binpad(x, o.data(), 32); return o; }
bytes num32(uint64_t v) { bytes o(32); for (int i = 0; i < 8; i++) o[31 - i] = (uint8_t)(v >> (8 * i)); return o; }
bytes add_small(const bytes &a, int64_t d) {
  BIGNUM *x = bn(a);
  if (d >= 0) BN_add_word(x, (BN_ULONG)d);
  else BN_sub_word(x, (BN_ULONG)-d);
  BN_mask_bits(x, 256);
  bytes o = bn32(x);
  BN_free(x);
  return o;
}
bool key_valid(const bytes &k) {
  bool z = true;
  for (uint8_t x : k) if (x) z = false;
  return !z && memcmp(k.data(), N.data(), 32) < 0;
}
static bytes point(const EC_POINT *p, bool c) {
  bytes o(65);
  o.resize(EC_POINT_point2oct(G, p, c ? POINT_CONVERSION_COMPRESSED : POINT_CONVERSION_UNCOMPRESSED, o.data(), 65, ctx()));
  return o;
}
static EC_POINT *parse(const bytes &e) {
  if (e.size() != 33 && e.size() != 65) return nullptr;
  uint8_t t = e[0];
  if (e.size() == 33 ? (t != 2 && t != 3) : (t != 4 && t != 6 && t != 7)) return nullptr;
  BIGNUM *x = BN_bin2bn(&e[1], 32, 0), *y = nullptr;
  EC_POINT *q = EC_POINT_new(G);
  bool ok = BN_cmp(x, bn_p) < 0;
  if (e.size() == 33) {
    ok = ok && EC_POINT_set_compressed_coordinates(G, q, x, t & 1, ctx()) == 1;
  } else {
    y = BN_bin2bn(&e[33], 32, 0);
    ok = ok && BN_cmp(y, bn_p) < 0 && EC_POINT_set_affine_coordinates(G, q, x, y, ctx()) == 1;
    if (ok && t != 4 && (e[64] & 1) != (t & 1)) ok = false;
  }
  BN_free(x);
  BN_free(y);
  if (!ok) { EC_POINT_free(q); return nullptr; }
  return q;
}
bool pub_parse(const bytes &enc, bytes &canon65) {
  EC_POINT *q = parse(enc);
  if (!q) return false;
  canon65 = point(q, false);
  EC_POINT_free(q);
  return true;
}
bytes pub_of(const bytes &k, bool compressed) {
  BIGNUM *x = bn(k);
  EC_POINT *q = EC_POINT_new(G);
  EC_POINT_mul(G, q, x, 0, 0, ctx());
  bytes o = point(q, compressed);
  EC_POINT_free(q);
  BN_free(x);
  return o;
}
bytes pub_convert(const bytes &enc, bool compressed) {
  EC_POINT *q = parse(enc);
  if (!q) return {};
  bytes o = point(q, compressed);
  EC_POINT_free(q);
  return o;
}
std::string wif(const bytes &k, bool c, const Params &p) { return b58c_enc(p.sk, c ? cat(k, bytes(1, 1)) : k); }
bool wif_dec(const std::string &s, const Params &p, bytes &k, bool &c) {
  bytes d;
  if (!b58c_dec(s, d) || !starts(d, p.sk)) return false;
  bytes r(d.begin() + p.sk.size(), d.end());
  if (r.size() == 33 && r[32] == 1) c = true;
  else if (r.size() == 32) c = false;
  else return false;
  r.resize(32);
  if (!key_valid(r)) return false;
  k = r;
  return true;
}
// DER built field by field.
static bytes tlv(uint8_t tag, const bytes &v) {
  bytes o(1, tag);
  if (v.size() < 128) o.push_back((uint8_t)v.size());
  else if (v.size() < 256) { o.push_back(0x81); o.push_back((uint8_t)v.size()); }
  else { o.push_back(0x82); o.push_back((uint8_t)(v.size() >> 8)); o.push_back((uint8_t)v.size()); }
  return cat(o, v);
}
static bytes integer(const bytes &be) {
  size_t i = 0;
  while (i + 1 < be.size() && be[i] == 0) i++;
  bytes v(be.begin() + i, be.end());
  if (v[0] & 0x80) v.insert(v.begin(), 0);
  return tlv(2, v);
}
bytes key_der(const bytes &k, bool c) {
  bytes one = {1}, zero = {0}, seven = {7};
  bytes field = tlv(0x30, cat(tlv(6, {0x2A, 0x86, 0x48, 0xCE, 0x3D, 0x01, 0x01}), integer(P)));
  bytes curve = tlv(0x30, cat(tlv(4, zero), tlv(4, seven)));
  bytes params = cat(cat(integer(one), field), cat(curve, tlv(4, pub_of(num32(1), c))));
  params = tlv(0x30, cat(params, cat(integer(N), integer(one))));
  bytes body = cat(integer(one), tlv(4, k));
  body = cat(body, tlv(0xA0, params));
  body = cat(body, tlv(0xA1, tlv(3, cat(zero, pub_of(k, c)))));
  return tlv(0x30, body);
}
bool key_der_dec(const bytes &d, bytes &k) {
  size_t i = 0, n = d.size();
  if (n < 2 || d[0] != 0x30) return false;
  if (d[1] != 0x81 && d[1] != 0x82) return false;
  size_t lb = d[1] & 0x7f;
  i = 2;
  if (n - i < lb) return false;
  size_t len = 0;
  for (size_t j = 0; j < lb; j++) len = len << 8 | d[i++];
  if (n - i < len) return false;
  if (n - i < 3 || d[i] != 2 || d[i + 1] != 1 || d[i + 2] != 1) return false;
  i += 3;
  if (n - i < 2 || d[i] != 4) return false;
  size_t ol = d[i + 1];
  i += 2;
  if (ol > 32 || n - i < ol) return false;
  bytes r(32);
  for (size_t j = 0; j < ol; j++) r[32 - ol + j] = d[i + j];
  if (!key_valid(r)) return false;
  k = r;
  return true;
}
bytes scalar_neg(const bytes &s) {
  BIGNUM *x = bn(s), *r = BN_new();
  BN_sub(r, bn_n, x);
  bytes o = bn32(r);
  BN_free(x);
  BN_free(r);
  return o;
}
bytes scalar_add(const bytes &a, const bytes &b) {
  BIGNUM *x = bn(a), *y = bn(b), *r = BN_new();
  BN_mod_add(r, x, y, bn_n, ctx());
  bytes o = bn32(r);
  BN_free(x);
  BN_free(y);
  BN_free(r);
  return o;
}
bytes bip32_hash(const bytes &c, uint32_t i, uint8_t h, const bytes &d) {
  bytes m(1, h);
  m = cat(m, d);
  for (int k = 3; k >= 0; k--) m.push_back((uint8_t)(i >> (8 * k)));
  return hmac512(c, m);
}
thread_local bytes forced_tweak;
bool ckd_priv(const bytes &k, const bytes &c, uint32_t i, bytes &ko, bytes &co) {
  bytes h;
  if (i & 0x80000000u) {
    h = bip32_hash(c, i, 0, k);
  } else {
    bytes p = pub_of(k, true);
    h = bip32_hash(c, i, p[0], bytes(p.begin() + 1, p.end()));
  }
  bytes il(h.begin(), h.begin() + 32);
  if (!forced_tweak.empty()) il = forced_tweak;
  if (memcmp(il.data(), N.data(), 32) >= 0) return false;
  ko = scalar_add(k, il);
  co.assign(h.begin() + 32, h.end());
  return key_valid(ko);
}
bool ckd_pub(const bytes &P33, const bytes &c, uint32_t i, bytes &Po, bytes &co) {
  if (i & 0x80000000u) return false;
  if (P33.size() != 33) return false;
  EC_POINT *q = parse(P33);
  if (!q) return false;
  bytes h = bip32_hash(c, i, P33[0], bytes(P33.begin() + 1, P33.end()));
  bytes il(h.begin(), h.begin() + 32);
  if (!forced_tweak.empty()) il = forced_tweak;
  bool ok = memcmp(il.data(), N.data(), 32) < 0;
  if (ok) {
    BIGNUM *x = bn(il);
    EC_POINT *t = EC_POINT_new(G);
    EC_POINT_mul(G, t, x, 0, 0, ctx());
    EC_POINT_add(G, t, t, q, ctx());
    ok = !EC_POINT_is_at_infinity(G, t);
    if (ok) Po = point(t, true);
    co.assign(h.begin() + 32, h.end());
    EC_POINT_free(t);
    BN_free(x);
  }
  EC_POINT_free(q);
  return ok;
}

// RFC 6979 with HMAC-SHA256; the hash enters reduced modulo n (bits2octets).
static bytes nonce(const bytes &k, const bytes &h0, const bytes *extra) {
  bytes h = h0;
  if (memcmp(h.data(), N.data(), 32) >= 0) {
    BIGNUM *m = bn(h);
    BN_mod(m, m, bn_n, ctx());
    h = bn32(m);
    BN_free(m);
  }
  bytes V(32, 1), K(32, 0), x = cat(k, h);
  if (extra) x = cat(x, *extra);
  K = hmac256(K, cat(cat(V, bytes(1, 0)), x));
  V = hmac256(K, V);
  K = hmac256(K, cat(cat(V, bytes(1, 1)), x));
  V = hmac256(K, V);
  for (;;) {
    V = hmac256(K, V);
    if (key_valid(V)) return V;
    K = hmac256(K, cat(V, bytes(1, 0)));
    V = hmac256(K, V);
  }
}
static bool sign_once(const bytes &key, const bytes &h, const bytes *extra, bytes &rs) {
  bytes k = nonce(key, h, extra);
  bytes R = pub_of(k, false);
  BIGNUM *r = BN_bin2bn(&R[1], 32, 0), *s = BN_new(), *kk = bn(k), *d = bn(key), *m = bn(h);
  BN_mod(r, r, bn_n, ctx());
  BN_mod_mul(s, r, d, bn_n, ctx());
  BN_mod_add(s, s, m, bn_n, ctx());
  BN_mod_inverse(kk, kk, bn_n, ctx());
  BN_mod_mul(s, s, kk, bn_n, ctx());
  bytes sb = bn32(s);
  if (memcmp(sb.data(), HALF_N.data(), 32) > 0) sb = scalar_neg(sb);
  bool ok = !BN_is_zero(r) && !BN_is_zero(s);
  rs = cat(bn32(r), sb);
  BN_free(r); BN_free(s); BN_free(kk); BN_free(d); BN_free(m);
  return ok;
}
void sign(const bytes &k, const bytes &h, bytes &rs, int *attempts) {
  sign_once(k, h, nullptr, rs);
  uint32_t c = 0;
  while (rs[0] & 0x80) {
    c++;
    bytes e(32);
    for (int i = 0; i < 4; i++) e[i] = (uint8_t)(c >> (8 * i));
    sign_once(k, h, &e, rs);
  }
  if (attempts) *attempts = (int)c + 1;
}
bool verify(const bytes &pub, const bytes &h, const bytes &rs) {
  bytes rb(rs.begin(), rs.begin() + 32), sb(rs.begin() + 32, rs.end());
  if (!key_valid(rb) || !key_valid(sb)) return false;
  EC_POINT *q = parse(pub);
  if (!q) return false;
  BIGNUM *r = bn(rb), *s = bn(sb), *m = bn(h), *u1 = BN_new(), *u2 = BN_new(), *x = BN_new();
  BN_mod_inverse(s, s, bn_n, ctx());
  BN_mod_mul(u1, m, s, bn_n, ctx());
  BN_mod_mul(u2, r, s, bn_n, ctx());
  EC_POINT *t = EC_POINT_new(G);
  EC_POINT_mul(G, t, u1, q, u2, ctx());
  bool ok = !EC_POINT_is_at_infinity(G, t);
  if (ok) {
    EC_POINT_get_affine_coordinates(G, t, x, nullptr, ctx());
    BN_mod(x, x, bn_n, ctx());
    ok = BN_cmp(x, r) == 0;
  }
  EC_POINT_free(t); EC_POINT_free(q);
  BN_free(r); BN_free(s); BN_free(m); BN_free(u1); BN_free(u2); BN_free(x);
  return ok;
}
bool forge(const bytes &R33, const bytes &s, const bytes &h, bytes &pub65, bytes &rs) {
  EC_POINT *R = parse(R33);
  if (!R) return false;
  BIGNUM *r = BN_bin2bn(&R33[1], 32, 0), *ri = BN_new(), *a = bn(h), *b = bn(s);
  BN_mod(r, r, bn_n, ctx());
  bool ok = !BN_is_zero(r);
  if (ok) {
    rs = cat(bn32(r), s);
    BN_mod_inverse(ri, r, bn_n, ctx());
    BN_mod_mul(b, b, ri, bn_n, ctx());   // Q = (s R - h G) / r
    BN_mod_mul(a, a, ri, bn_n, ctx());
    if (!BN_is_zero(a)) BN_sub(a, bn_n, a);
    EC_POINT *q = EC_POINT_new(G);
    EC_POINT_mul(G, q, a, R, b, ctx());
    ok = !EC_POINT_is_at_infinity(G, q);
    if (ok) pub65 = point(q, false);
    EC_POINT_free(q);
  }
  EC_POINT_free(R);
  BN_free(r); BN_free(ri); BN_free(a); BN_free(b);
  return ok;
}
bytes sig_der(const bytes &rs) {
  return tlv(0x30, cat(integer(bytes(rs.begin(), rs.begin() + 32)), integer(bytes(rs.begin() + 32, rs.end()))));
}
// Bitcoin's lax rules: sequence length ignored, integers of any length with
// leading zeros, length bytes with leading zeros, trailing data ignored.
static bool lax_int(const bytes &d, size_t &i, bytes &v) {
  if (i >= d.size() || d[i] != 2) return false;
  i++;
  if (i >= d.size()) return false;
  size_t l = d[i++];
  if (l & 0x80) {
    size_t n = l & 0x7f;
    if (n > d.size() - i) return false;
    while (n > 0 && d[i] == 0) { i++; n--; }
    if (n >= 4) return false;
    l = 0;
    while (n-- > 0) l = l * 256 + d[i++];
  }
  if (l > d.size() - i) return false;
  v.assign(d.begin() + i, d.begin() + i + l);
  i += l;
  return true;
}
bool sig_lax(const bytes &d, bytes &rs) {
  size_t i = 0;
  if (d.empty() || d[0] != 0x30) return false;
  i = 1;
  if (i >= d.size()) return false;
  size_t l = d[i++];
  if (l & 0x80) {
    l &= 0x7f;
    if (l > d.size() - i) return false;
    i += l;
  }
  bytes r, s;
  if (!lax_int(d, i, r) || !lax_int(d, i, s)) return false;
  rs.assign(64, 0);
  auto put = [&](bytes v, size_t at) {
    size_t z = 0;
    while (z < v.size() && v[z] == 0) z++;
    if (v.size() - z > 32) return false;
    for (size_t j = z; j < v.size(); j++) rs[at + 32 - (v.size() - j)] = v[j];
    return true;
  };
  bool ok = put(r, 0);
  ok = put(s, 32) && ok;
  if (!ok || memcmp(&rs[0], N.data(), 32) >= 0 || memcmp(&rs[32], N.data(), 32) >= 0) rs.assign(64, 0);
  return true;
}
bytes ext_payload(const Ext &e, const bytes &tail33) {
  bytes o(1, e.depth);
  for (int k = 0; k < 4; k++) o.push_back((uint8_t)(e.fp >> (8 * k)));
  for (int k = 3; k >= 0; k--) o.push_back((uint8_t)(e.child >> (8 * k)));
  return cat(cat(o, e.code), tail33);
}
}  // namespace ref
