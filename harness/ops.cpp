#include "ops.hpp"
#include "specials.hpp"

#include <errno.h>
#include <fenv.h>
#include <locale.h>

#include <secp256k1.h>

extern "C" {
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
}

#include <mutex>

bool big_sizes = true;

// ------------------------------------------------------------------ results ----
Res &Res::n(const char *k, long long v) {
  char t[64];
  snprintf(t, sizeof t, "%s=%lld ", k, v);
  s += t;
  return *this;
}
Res &Res::b(const char *k, const void *p, size_t len) {
  s += k;
  s += '=';
  s += hexs(p, len);
  s += ' ';
  return *this;
}

std::string Case::text() const {
  std::string t = op ? op->name : "?";
  for (auto &x : b) t += " [" + std::to_string(x.size()) + "]" + shorten(hexs(x), 1200);
  for (auto x : n) t += " " + std::to_string(x);
  if (!p.hrp.empty()) {
    if (p.builtin >= 0) t += " net=" + std::to_string(p.builtin);
    else t += " params{" + hexs(p.pk) + "," + hexs(p.sc) + "," + hexs(p.sk) + "," + hexs(p.xpub) + "," + hexs(p.xprv) + "," + p.hrp + "}";
  }
  return t;
}
uint64_t Case::hash() const {
  uint64_t h = fnvs(op ? op->name : "");
  for (auto &x : b) { size_t z = x.size(); h = fnv(&z, 8, h); h = fnv(x.data(), z, h); }
  for (auto x : n) h = fnv(&x, 8, h);
  h = fnv(&p.builtin, 4, h);
  h = fnvs(p.hrp, h);
  h = fnv(p.pk.data(), p.pk.size(), h);
  h = fnv(p.sk.data(), p.sk.size(), h);
  h = fnv(p.xprv.data(), p.xprv.size(), h);
  return h;
}
size_t Case::size() const {
  size_t z = 0;
  for (auto &x : b) z += x.size();
  return z;
}

// --------------------------------------------------------------- generators ----
static bytes cat(const bytes &a, const bytes &b) { bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }

static size_t glen(Rng &r, size_t max = 1500) {
  if (big_sizes && r.chance(1, 60)) return r.below(6000);
  return gen_len(r, r.chance(1, 4) ? max : 200);
}
static bytes gdata(Rng &r, size_t max = 1500) { return gen_bytes(r, glen(r, max)); }

bytes special_key(size_t i) {
  static const std::vector<bytes> v = [] { std::vector<bytes> o; for (auto k : SPECIAL_KEYS) o.push_back(ref::hex_dec(k)); return o; }();
  return v[i % v.size()];
}
size_t special_keys() { return sizeof SPECIAL_KEYS / sizeof *SPECIAL_KEYS; }
size_t special_signatures() { return sizeof SPECIAL_SIGNATURES / sizeof *SPECIAL_SIGNATURES; }
void special_signature(size_t i, bytes &key, bytes &hash) {
  auto &x = SPECIAL_SIGNATURES[i % special_signatures()];
  key = ref::hex_dec(x.key);
  hash = ref::hex_dec(x.hash);
}
bytes gen_key(Rng &r) {
  if (r.chance(1, 24)) return special_key(r.below(special_keys()));
  switch (r.below(12)) {
    case 0: return ref::num32(1 + r.below(5));
    case 1: return ref::add_small(ref::N, -1 - (int64_t)r.below(5));
    case 2: return ref::add_small(ref::HALF_N, (int64_t)r.below(5) - 2);
    case 3: { bytes k(32); k[r.below(32)] = (uint8_t)(1u << r.below(8)); if (ref::key_valid(k)) return k; break; }
    case 4: { bytes k = gen_bytes(r, 32); for (size_t i = 0, z = r.below(31); i < z; i++) k[i] = 0; if (ref::key_valid(k)) return k; break; }
    case 5: { bytes k = gen_bytes(r, 32); if (ref::key_valid(k)) return k; break; }
    default: break;
  }
  for (;;) {
    bytes k(32);
    for (auto &x : k) x = r.byte();
    if (ref::key_valid(k)) return k;
  }
}
bytes gen_any_scalar(Rng &r) {
  if (r.chance(1, 3)) {
    switch (r.below(6)) {
      case 0: return bytes(32, 0);
      case 1: return ref::N;
      case 2: return ref::add_small(ref::N, 1 + (int64_t)r.below(3));
      case 3: return bytes(32, 0xff);
      case 4: return ref::P;
      default: { bytes k(32, 0xff); for (int i = 16; i < 32; i++) k[i] = r.byte(); return k; }
    }
  }
  return gen_key(r);
}
bytes gen_pub(Rng &r, bool c) {
  if (r.chance(1, 16)) return ref::pub_of(special_key(r.below(special_keys())), c);
  static std::mutex mu;
  static std::vector<bytes> pool;
  if (r.chance(1, 2)) {
    // any curve point by trying x coordinates
    for (;;) {
      bytes e(33);
      e[0] = (uint8_t)(2 + r.below(2));
      for (int i = 1; i < 33; i++) e[i] = r.byte();
      if (r.chance(1, 4)) for (int i = 1, z = (int)r.range(1, 8); i <= z; i++) e[i] = 0;
      bytes o = ref::pub_convert(e, c);
      if (!o.empty()) return o;
    }
  }
  (void)mu;
  return ref::pub_of(gen_key(r), c);
}
static std::string gen_hrp(Rng &r, size_t max, bool safe_only = false) {
  size_t n = 1 + r.below(max);
  std::string h;
  for (size_t i = 0; i < n; i++) {
    char c = (char)r.range(33, 126);
    if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
    if (safe_only || r.chance(1, 2)) c = (char)('a' + r.below(26));
    if (!safe_only && r.chance(1, 12)) c = '1';
    h += c;
  }
  return h;
}
static bool clash(const bytes &a, const bytes &b) {
  size_t n = a.size() < b.size() ? a.size() : b.size();
  return std::equal(a.begin(), a.begin() + n, b.begin());
}
ref::Params gen_params(Rng &r) {
  if (r.chance(2, 3)) return ref::builtin((int)r.below(3));
  ref::Params p;
  auto pre = [&]() {
    bytes b = gen_bytes(r, 1 + (r.chance(1, 2) ? r.below(2) : r.below(8)));
    return b;
  };
  do {
    p.pk = pre();
    p.sc = pre();
    if (r.chance(1, 3)) { p.sc = p.pk; p.sc.back() ^= (uint8_t)(1u << r.below(8)); }
  } while (clash(p.pk, p.sc));
  if (r.chance(1, 16)) {  // nothing limits the prefixes of addresses
    p.pk = cat(p.pk, gen_bytes(r, gen_len(r, 300)));
    if (r.chance(1, 2)) p.sc = cat(p.sc, gen_bytes(r, gen_len(r, 300)));
  }
  p.sk = pre();
  do { p.xpub = pre(); p.xprv = pre(); if (r.chance(1, 3)) { p.xprv = p.xpub; p.xprv.back() ^= 1; } } while (clash(p.xpub, p.xprv));
  p.hrp = gen_hrp(r, r.chance(1, 4) ? (r.chance(1, 3) ? 83 : 20) : 5);
  return p;
}

bytes mutate(Rng &r, bytes b, const char *alpha) {
  size_t al = strlen(alpha);
  auto ch = [&]() -> uint8_t {
    switch (r.below(6)) {
      case 0: return r.byte();
      case 1: return (uint8_t)(0x80 | r.byte());
      case 2: { static const uint8_t s[] = {0, 9, 10, 11, 12, 13, 32, '=', '1', '-', '_', '+', '/', '0', 'O', 'I', 'l', 127}; return s[r.below(sizeof s)]; }
      default: return (uint8_t)alpha[r.below(al)];
    }
  };
  size_t k = 1 + r.below(r.chance(1, 3) ? 4 : 1);
  for (size_t i = 0; i < k; i++) {
    size_t n = b.size();
    switch (r.below(14)) {
      case 0: case 1: case 2: if (n) b[r.below(n)] = ch(); break;
      case 3: b.insert(b.begin() + r.below(n + 1), ch()); break;
      case 4: if (n) b.erase(b.begin() + r.below(n)); break;
      case 5: if (n) b.resize(r.below(n)); break;
      case 6: if (n > 1) std::swap(b[r.below(n)], b[r.below(n)]); break;
      case 7: { static const uint8_t ws[] = {9, 10, 11, 12, 13, 32}; size_t z = 1 + r.below(4); for (size_t j = 0; j < z; j++) { if (r.chance(1, 2)) b.push_back(ws[r.below(6)]); else b.insert(b.begin(), ws[r.below(6)]); } break; }
      case 8: for (auto &c : b) if (c >= 'a' && c <= 'z') c = (uint8_t)(c - 32); break;
      case 9: if (n) { uint8_t &c = b[r.below(n)]; if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) c ^= 0x20; } break;
      case 10: b.push_back(ch()); break;
      case 11: if (n) b[n - 1 - r.below(n < 8 ? n : 8)] = ch(); break;
      case 12: b.insert(b.begin(), (uint8_t)(r.chance(1, 2) ? '1' : alpha[0])); break;
      default: if (n) { bytes t(b.begin() + r.below(n), b.end()); b = cat(b, t); if (b.size() > 3000) b.resize(3000); }
    }
  }
  return b;
}

// Text for a decoder: a valid form, a damaged one, alphabet soup or junk.
static bytes gtext(Rng &r, const bytes &valid, const char *alpha) {
  switch (r.below(10)) {
    case 0: case 1: case 2: return valid;
    case 3: case 4: case 5: case 6: return mutate(r, valid, alpha);
    case 7: {
      bytes b(glen(r, 400));
      size_t al = strlen(alpha);
      for (auto &c : b) c = (uint8_t)alpha[r.below(al)];
      if (r.chance(1, 2)) b = mutate(r, b, alpha);
      return b;
    }
    case 8: {
      static const char sp[] = {'1', '=', ' ', 'z', 0, (char)0x80, (char)0xff, '\n', 'A'};
      bytes b(glen(r, 400), (uint8_t)sp[r.below(sizeof sp)]);
      if (r.chance(1, 2)) b = mutate(r, b, alpha);
      return b;
    }
    default: return gdata(r, 400);
  }
}
static const char *HEXA = "0123456789abcdefABCDEF";
static const char *B32A = "abcdefghijklmnopqrstuvwxyz234567ABCDEFGHIJKLMNOPQRSTUVWXYZ";
static const char *B64A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char *B64U = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static const char *B58A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const char *BECA = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

// ------------------------------------------------------------------ helpers ----
static char *cc(const void *p) { return (char *)p; }
static const chain_parameters *params(const Case &c, Mem &m) {
  switch (c.p.builtin) {
    case 0: return &g_mainnet_chain_parameters;
    case 1: return &g_testnet_chain_parameters;
    case 2: return &g_regnet_chain_parameters;
  }
  chain_parameters q;
  memset(&q, 0, sizeof q);
#define F(f, v) q.f = (const char *)m.in(v); q.f##_size = (unsigned)(v).size();
  F(prefix_pubkey_address, c.p.pk)
  F(prefix_script_address, c.p.sc)
  F(prefix_secret_key, c.p.sk)
  F(prefix_ext_public_key, c.p.xpub)
  F(prefix_ext_secret_key, c.p.xprv)
  F(bech32_hrp, B(c.p.hrp))
#undef F
  bytes raw(sizeof q);
  memcpy(raw.data(), &q, sizeof q);
  return (const chain_parameters *)m.in(raw, true);
}
static const secp256k1_context *S() { return secp256k1_context_static; }
static bytes opaque_pub(const bytes &enc) {
  secp256k1_pubkey p;
  memset(&p, 0, sizeof p);
  if (!secp256k1_ec_pubkey_parse(S(), &p, enc.data(), enc.size())) abort();
  return bytes((uint8_t *)&p, (uint8_t *)&p + 64);
}
static bytes plain_pub(const uint8_t *p64) {
  bytes o(65);
  size_t n = 65;
  secp256k1_pubkey p;
  memcpy(&p, p64, 64);
  bool z = true;
  for (int i = 0; i < 64; i++) if (p64[i]) z = false;
  if (z) return {};
  secp256k1_ec_pubkey_serialize(S(), o.data(), &n, &p, SECP256K1_EC_UNCOMPRESSED);
  return o;
}
static bool opaque_sig(const bytes &rs, bytes &o) {
  secp256k1_ecdsa_signature s;
  if (!secp256k1_ecdsa_signature_parse_compact(S(), &s, rs.data())) return false;
  o.assign((uint8_t *)&s, (uint8_t *)&s + 64);
  return true;
}
static bytes plain_sig(const uint8_t *p) {
  secp256k1_ecdsa_signature s;
  memcpy(&s, p, 64);
  bytes o(64);
  secp256k1_ecdsa_signature_serialize_compact(S(), o.data(), &s);
  return o;
}
static bytes ext_struct(const Case &c, size_t keypos, bool pub) {
  // n: depth, fingerprint, child; b[keypos]=key bytes, b[keypos+1]=chain code
  bytes raw(pub ? sizeof(fingera_ex_pubkey) : sizeof(fingera_ex_key), 0x5a);
  fingera_ex_extension e;
  memset(&e, 0x5a, sizeof e);
  e.depth = (uint8_t)c.n[0];
  e.fingerprint = (uint32_t)c.n[1];
  e.child = (uint32_t)c.n[2];
  memcpy(e.chain_code, c.b[keypos + 1].data(), 32);
  memcpy(raw.data(), &e, sizeof e);
  memcpy(raw.data() + (pub ? offsetof(fingera_ex_pubkey, c_pubkey) : offsetof(fingera_ex_key, key)), c.b[keypos].data(), c.b[keypos].size());
  return raw;
}
static void put_ext(Res &o, const fingera_ex_extension &e) {
  o.n("depth", e.depth).n("fp", e.fingerprint).n("child", e.child).b("code", e.chain_code, 32);
}
static void put_ext(Res &o, int depth, uint32_t fp, uint32_t child, const bytes &code) {
  o.n("depth", depth).n("fp", fp).n("child", child).b("code", code);
}

// ------------------------------------------------------------------ op table ----
#define GEN [](Rng &r, Case &c)
#define RUN [](const Case &c, Mem &m, Res &o)
#define REF [](const Case &c, Res &o)
#define UNUSED (void)r; (void)c;

static std::mutex stdout_mu;

static void gen_hash(Rng &r, Case &c) { c.b = {gdata(r)}; }
template <void (*F)(const void *, size_t, void *), size_t N>
static void run_hash(const Case &c, Mem &m, Res &o) {
  const uint8_t *in = m.in(c.b[0]);
  uint8_t *out = m.out(N);
  F(in, c.b[0].size(), out);
  o.b("h", out, N);
}
template <bytes (*F)(const bytes &)>
static void ref_hash(const Case &c, Res &o) { o.b("h", F(c.b[0])); }
static bytes r_hash256(const bytes &m) { return ref::hash256(m); }
static bytes r_hash160(const bytes &m) { return ref::hash160(m); }

static void gen_hmac(Rng &r, Case &c) { c.b = {gdata(r, 400), gdata(r)}; }
template <void (*F)(const void *, size_t, const void *, size_t, void *), size_t N>
static void run_hmac(const Case &c, Mem &m, Res &o) {
  const uint8_t *k = m.in(c.b[0]), *d = m.in(c.b[1]);
  uint8_t *out = m.out(N);
  F(k, c.b[0].size(), d, c.b[1].size(), out);
  o.b("h", out, N);
}

static size_t bech_len(Rng &r) { return r.chance(1, 8) ? r.below(400) : r.below(84); }
static bytes gen5(Rng &r, size_t n) { bytes d = gen_bytes(r, n); for (auto &x : d) x &= 31; return d; }

static void gen_addr58(Rng &r, Case &c) {
  c.p = gen_params(r);
  size_t n = r.chance(2, 3) ? 20 : gen_len(r, 300);
  c.b = {gen_bytes(r, n)};
  size_t need = (n + 4 + c.p.pk.size()) * 138 / 100 + 2;
  c.n = {r.chance(2, 3) ? need + 8 : r.below(need + 12)};
}
// Any result must be either the standard address (which then fits) or a
// refusal; refusal is only right below the announced maximum.
template <size_t (*F)(const void *, size_t, char *, size_t, const chain_parameters *), bool PK>
static void run_addr58(const Case &c, Mem &m, Res &o) {
  const chain_parameters *p = params(c, m);
  const uint8_t *id = m.in(c.b[0]);
  size_t cap = c.n[0];
  char *out = (char *)m.out(cap);
  size_t n = F(id, c.b[0].size(), out, cap, p);
  size_t announced = fingera_to_base58_check_length(c.b[0].size(), PK ? c.p.pk.size() : c.p.sc.size());
  std::string want = PK ? ref::addr_pk(c.b[0], c.p) : ref::addr_sc(c.b[0], c.p);
  if (n == 0) {
    if (cap >= announced) o.t("refused_with_room", "");
    else o.s += "ok";
  } else {
    if (n > cap) o.t("count_beyond_capacity", "");
    else if (std::string(out, n) != want) o.b("text", out, n);
    else o.s += "ok";
  }
}
static void ref_ok(const Case &, Res &o) { o.s += "ok"; }

template <int V>
static void gen_segwit(Rng &r, Case &c) {
  c.p = gen_params(r);
  size_t plen;
  bytes in;
  if (V == 0) plen = 20;
  else if (V == 1) plen = 32;
  else plen = r.chance(3, 4) ? r.range(2, 40) : r.below(60);
  in = gen_bytes(r, plen);
  if (V == 2) {
    uint8_t ver = r.chance(3, 4) ? (uint8_t)r.range(1, 16) : r.byte();
    in.insert(in.begin(), ver);
    if (r.chance(1, 20)) in.resize(r.below(4));
  }
  c.b = {in};
  size_t full = c.p.hrp.size() + 8 + (plen * 8 + 4) / 5;
  c.n = {r.chance(2, 3) ? full + r.below(20) : (r.chance(1, 2) ? full - 1 : r.below(full + 2))};
}
template <size_t (*F)(const void *, size_t, char *, size_t, const chain_parameters *)>
static void run_segwit(const Case &c, Mem &m, Res &o) {
  const chain_parameters *p = params(c, m);
  const uint8_t *id = m.in(c.b[0]);
  char *out = (char *)m.out(c.n[0]);
  size_t n = F(id, c.b[0].size(), out, c.n[0], p);
  o.n("ret", (long long)n);
  if (n && n <= c.n[0]) o.b("text", out, n);
}
static void ref_segwit(int ver, const bytes &prog, const Case &c, Res &o) {
  std::string s = ref::addr_segwit(ver, prog, c.p);
  // BIP173 has no address of more than 90 characters
  if (s.size() > c.n[0] || s.size() > 90) { o.n("ret", 0); return; }
  o.n("ret", (long long)s.size());
  o.t("text", s);
}

static bytes gen_sig(Rng &r) {  // r||s both in [0, n-1]
  auto half = [&]() -> bytes {
    switch (r.below(10)) {
      case 0: return bytes(32, 0);
      case 1: return ref::num32(1 + r.below(300));
      case 2: return ref::add_small(ref::N, -1 - (int64_t)r.below(3));
      case 3: return ref::add_small(ref::HALF_N, (int64_t)r.below(5) - 2);
      case 4: { bytes b = gen_key(r); size_t z = r.below(32); for (size_t i = 0; i < z; i++) b[i] = 0; return b; }
      case 5: { bytes b = gen_key(r); b[0] = 0; b[1] |= 0x80; return b; }
      default: return gen_key(r);
    }
  };
  return cat(half(), half());
}
// A hostile DER-ish signature.
static bytes gen_der_sig(Rng &r) {
  bytes rs = gen_sig(r);
  if (r.chance(1, 4)) return ref::sig_der(rs);
  auto integer = [&](size_t at) {
    bytes v;
    if (r.chance(3, 4)) v.assign(rs.begin() + at, rs.begin() + at + 32);
    else if (r.chance(1, 3)) v = r.chance(1, 2) ? ref::N : bytes(32, 0xff);
    else v = gen_bytes(r, r.chance(1, 2) ? r.below(40) : r.below(300));
    if (r.chance(1, 3)) { size_t z = 0; while (z < v.size() && v[z] == 0) z++; v.erase(v.begin(), v.begin() + z); }
    if (r.chance(1, 3)) v.insert(v.begin(), r.chance(1, 3) ? r.below(200) : r.below(4), 0);
    bytes o(1, r.chance(1, 20) ? r.byte() : 2);
    size_t L = v.size();
    if (r.chance(1, 12)) L = L + r.below(5) - 2;
    if (L < 128 && r.chance(2, 3)) o.push_back((uint8_t)L);
    else {
      bytes lb;
      for (size_t x = L; x && lb.size() < 8; x >>= 8) lb.insert(lb.begin(), (uint8_t)x);
      if (r.chance(1, 2)) lb.insert(lb.begin(), r.below(r.chance(1, 6) ? 120 : 6), 0);
      if (r.chance(1, 20)) lb.insert(lb.begin(), r.byte());
      size_t cnt = lb.size() > 127 ? 127 : lb.size();
      if (r.chance(1, 20)) cnt = r.below(128);
      o.push_back((uint8_t)(0x80 | cnt));
      o = cat(o, lb);
    }
    return cat(o, v);
  };
  bytes body = cat(integer(0), integer(32));
  if (r.chance(1, 4)) body = cat(body, gen_bytes(r, r.below(20)));
  bytes o(1, r.chance(1, 20) ? r.byte() : 0x30);
  size_t L = body.size();
  if (r.chance(1, 6)) L = r.below(300);
  if (L < 128 && r.chance(3, 4)) o.push_back((uint8_t)L);
  else {
    size_t cnt = r.chance(3, 4) ? 1 + r.below(3) : r.below(128);
    o.push_back((uint8_t)(0x80 | cnt));
    if (r.chance(5, 6)) o = cat(o, gen_bytes(r, cnt));
  }
  o = cat(o, body);
  if (r.chance(1, 5) && o.size()) o.resize(r.below(o.size() + 1));
  if (r.chance(1, 6) && o.size()) o[r.below(o.size())] = r.byte();
  return o;
}
static bytes gen_key_der(Rng &r) {
  bytes d = ref::key_der(gen_key(r), r.chance(1, 2));
  switch (r.below(8)) {
    case 0: case 1: return d;
    case 2: {  // own structure with odd sizes
      bytes k = gen_any_scalar(r);
      size_t z = r.below(33);
      if (r.chance(1, 2)) k.erase(k.begin(), k.begin() + z);
      if (r.chance(1, 6)) k.insert(k.begin(), r.below(4), 0);
      bytes body = {2, 1, 1, 4, (uint8_t)k.size()};
      if (r.chance(1, 8)) body[r.below(5)] = r.byte();
      body = cat(body, k);
      body = cat(body, gen_bytes(r, r.below(20)));
      size_t L = body.size() + (r.chance(1, 6) ? r.below(5) - 2 : 0) - (r.chance(1, 4) ? r.below(body.size() + 1) : 0);
      bytes o = {0x30};
      size_t lb = r.chance(9, 10) ? 1 + r.below(2) : r.below(128);
      o.push_back((uint8_t)(0x80 | lb));
      if (r.chance(1, 20)) o[1] &= 0x7f;
      for (size_t j = lb; j-- > 0;) o.push_back(j < 8 ? (uint8_t)(L >> (8 * j)) : 0);
      return cat(o, body);
    }
    case 3: d.resize(r.below(d.size() + 1)); return d;
    case 4: d[r.below(d.size())] = r.byte(); return d;
    case 5: d[r.below(12)] = r.byte(); return d;
    case 6: { bytes k = gen_any_scalar(r); size_t at = d.size() == 214 ? 8 : 9; std::copy(k.begin(), k.end(), d.begin() + at); return d; }
    default: { bytes o = gdata(r, 300); if (o.size()) o[0] = 0x30; if (o.size() > 1 && r.chance(1, 2)) o[1] = 0x81 + (uint8_t)r.below(2); return o; }
  }
}
static bytes gen_pub_enc(Rng &r) {
  bool c = r.chance(1, 2);
  bytes e = gen_pub(r, c);
  switch (r.below(12)) {
    case 0: case 1: case 2: return e;
    case 3: e[0] = (uint8_t)r.below(8); return e;
    case 4: e = ref::pub_convert(e, false); e[0] = (uint8_t)(6 + r.below(2)); return e;
    case 5: e[r.below(e.size())] ^= (uint8_t)(1u << r.below(8)); return e;
    case 6: { bytes x = ref::add_small(ref::P, (int64_t)r.below(40) - 20); std::copy(x.begin(), x.end(), e.begin() + 1); return e; }
    case 7: for (size_t i = 1; i < 33; i++) e[i] = r.byte(); return e;
    case 8: for (size_t i = 1; i < e.size(); i++) e[i] = 0xff; if (r.chance(1, 2)) e[32] = r.byte(); return e;
    case 9: e.resize(r.below(80)); return e;
    case 10: return gen_bytes(r, r.chance(1, 2) ? 33 : 65);
    default: return gdata(r, 100);
  }
}

static uint64_t gen_child(Rng &r) {
  switch (r.below(8)) {
    case 0: return r.below(4);
    case 1: return 0x80000000ull + r.below(4);
    case 2: return 0x7fffffffull;
    case 3: return 0xffffffffull;
    case 4: return (uint64_t)1 << r.below(32);
    case 5: { uint64_t v = 0; for (int k = 0; k < 4; k++) v = v << 8 | (r.chance(1, 2) ? (r.chance(1, 2) ? 0 : 0xff) : r.byte()); return v; }  // whole bytes of zeros or ones
    default: return (uint32_t)r.u64();
  }
}

static void gen_ext(Rng &r, Case &c) {
  uint64_t d = r.chance(1, 3) ? (r.chance(1, 2) ? 255 : 254) : r.below(256);
  if (r.chance(1, 8)) d = 0;
  c.n = {d, gen_child(r), gen_child(r)};
}
// xprv/xpub text for import: valid, or wrong in one place
static bytes gen_xstr(Rng &r, const ref::Params &p, bool pub) {
  ref::Ext e;
  e.depth = r.byte();
  e.fp = (uint32_t)gen_child(r);
  e.child = (uint32_t)gen_child(r);
  e.code = gen_bytes(r, 32);
  bytes tail;
  if (pub) {
    tail = r.chance(3, 4) ? gen_pub(r, true) : gen_pub_enc(r);
    tail.resize(33);
    if (r.chance(1, 10)) tail[0] = r.byte();
  } else {
    tail = cat(bytes(1, r.chance(9, 10) ? 0 : r.byte()), r.chance(2, 3) ? gen_key(r) : gen_any_scalar(r));
  }
  bytes pre = pub ? p.xpub : p.xprv, pay = ref::ext_payload(e, tail);
  switch (r.below(12)) {
    case 0: pre = pub ? p.xprv : p.xpub; break;
    case 1: { ref::Params q = gen_params(r); pre = pub ? q.xpub : q.xprv; break; }
    case 2: pay.resize(r.below(200)); break;
    case 3: if (r.chance(1, 2)) pay.pop_back(); else pay.push_back(r.byte()); break;
    case 4: if (pre.size() > 1) pre.pop_back(); break;
    case 5: pre.push_back(0); break;
    default: break;
  }
  bytes s = B(ref::b58c_enc(pre, pay));
  if (r.chance(1, 4)) return mutate(r, s, B58A);
  if (r.chance(1, 12)) return gtext(r, s, B58A);
  return s;
}

// A flag handed over as an int: any value but zero says yes.
uint64_t gen_flag(Rng &r) {
  static const int32_t ODD[] = {2, 3, 4, -1, -2, 0x100, 0x10000, 0x1000000, 0x7fffffff, INT32_MIN, 33, 65, 0xff, -256};
  if (r.chance(2, 3)) return r.below(2);
  return (uint64_t)(int64_t)(r.chance(3, 4) ? ODD[r.below(sizeof ODD / sizeof *ODD)] : (int32_t)(1u << r.below(32)));
}

const std::vector<Op> OPS = {
    // ------------------------------------------------------------- codecs ----
    {"to_hex", "C04", false, false, GEN { c.b = {gdata(r)}; c.n = {gen_flag(r)}; },
     RUN {
       size_t n = fingera_to_hex_length(c.b[0].size());
       const uint8_t *in = m.in(c.b[0]);
       char *out = cc(m.out(n));
       fingera_to_hex(in, c.b[0].size(), out, (int)c.n[0]);
       o.n("len", n).b("text", out, n);
     },
     REF { std::string s = ref::hex_enc(c.b[0], c.n[0] != 0); o.n("len", s.size()).t("text", s); }},
    {"from_hex", "C04 C05", true, false, GEN { bytes d = gdata(r, 300); c.b = {gtext(r, B(ref::hex_enc(d, r.chance(1, 2))), HEXA)}; },
     RUN {
       size_t cap = fingera_from_hex_length(c.b[0].size());
       const uint8_t *in = m.in(c.b[0]);
       uint8_t *out = m.out(cap);
       size_t n = fingera_from_hex((const char *)in, c.b[0].size(), out);
       o.n("ret", n).b("out", out, n > cap ? cap : n);
     },
     REF { bytes d = ref::hex_dec(S(c.b[0])); o.n("ret", d.size()).b("out", d); }},
    {"hex_dump", "C04", false, false, GEN { c.b = {gdata(r)}; c.n = {gen_flag(r)}; },
     RUN {
       const uint8_t *in = m.in(c.b[0]);
       std::lock_guard<std::mutex> g(stdout_mu);
       char *buf = nullptr;
       size_t n = 0;
       FILE *f = open_memstream(&buf, &n), *old = stdout;
       stdout = f;
       fingera_hex_dump(in, c.b[0].size(), (int)c.n[0]);
       stdout = old;
       fclose(f);
       o.b("text", buf, n);
       free(buf);
     },
     REF { o.t("text", ref::hex_dump(c.b[0], c.n[0] != 0)); }, false},
    {"to_base32", "C04", false, false, GEN { c.b = {gdata(r)}; },
     RUN {
       size_t n = fingera_to_base32_length(c.b[0].size());
       const uint8_t *in = m.in(c.b[0]);
       char *out = cc(m.out(n));
       fingera_to_base32(in, c.b[0].size(), out);
       o.n("len", n).b("text", out, n);
     },
     REF { std::string s = ref::b32_enc(c.b[0]); o.n("len", s.size()).t("text", s); }},
    {"from_base32", "C04 C05", true, false, GEN {
       bytes d = gdata(r, 300), t = B(ref::b32_enc(d));
       if (r.chance(1, 4)) for (auto &x : t) if (x >= 'a' && x <= 'z' && r.chance(1, 2)) x = (uint8_t)(x - 32);
       if (r.chance(1, 4)) while (!t.empty() && t.back() == '=') t.pop_back();
       c.b = {gtext(r, t, B32A)};
     },
     RUN {
       const uint8_t *in = m.in(c.b[0]);
       size_t cap = fingera_from_base32_length((const char *)in, c.b[0].size());
       uint8_t *out = m.out(cap);
       size_t n = fingera_from_base32((const char *)in, c.b[0].size(), out);
       o.n("cap", cap).n("ret", n).b("out", out, n > cap ? cap : n);
     },
     REF {
       std::string s = S(c.b[0]);
       size_t e = s.find('=');
       bytes d = ref::b32_dec(s);
       o.n("cap", ref::b32_len(e == std::string::npos ? s.size() : e)).n("ret", d.size()).b("out", d);
     }},
    {"to_base32_raw", "C04", false, false, GEN { c.b = {gdata(r)}; },
     RUN {
       size_t n = (c.b[0].size() * 8 + 4) / 5;
       const uint8_t *in = m.in(c.b[0]);
       uint8_t *out = m.out(n);
       size_t k = fingera_to_base32_raw(in, c.b[0].size(), out);
       o.n("ret", k).b("out", out, n);
     },
     REF { bytes d = ref::b32_raw_enc(c.b[0]); o.n("ret", d.size()).b("out", d); }},
    {"from_base32_raw", "C04 C05", true, false, GEN {
       bytes t = ref::b32_raw_enc(gdata(r, 300));
       switch (r.below(6)) {
         case 0: case 1: break;
         case 2: case 3: if (t.size()) t[r.below(t.size())] = (uint8_t)(r.chance(1, 2) ? r.byte() : 32 + r.below(4)); break;
         case 4: t = gen5(r, glen(r, 300)); break;
         default: t = gdata(r, 300);
       }
       for (auto &x : t) if (x == '=') x = 62;  // symbol 61 is not specified
       c.b = {t};
     },
     RUN {
       const uint8_t *in = m.in(c.b[0]);
       size_t cap = fingera_from_base32_raw_length(c.b[0].size());
       uint8_t *out = m.out(cap);
       size_t n = fingera_from_base32_raw(in, c.b[0].size(), out);
       o.n("cap", cap).n("ret", n).b("out", out, n > cap ? cap : n);
     },
     REF { bytes d = ref::b32_raw_dec(c.b[0]); o.n("cap", ref::b32_len(c.b[0].size())).n("ret", d.size()).b("out", d); }},
    {"to_base64", "C04", false, false, GEN { c.b = {gdata(r)}; },
     RUN {
       size_t n = fingera_to_base64_length(c.b[0].size());
       const uint8_t *in = m.in(c.b[0]);
       char *out = cc(m.out(n));
       fingera_to_base64(in, c.b[0].size(), out);
       o.n("len", n).b("text", out, n);
     },
     REF { std::string s = ref::b64_enc(c.b[0], false); o.n("len", s.size()).t("text", s); }},
    {"to_base64_urlsafe", "C04", false, false, GEN { c.b = {gdata(r)}; },
     RUN {
       size_t n = fingera_to_base64_urlsafe_length(c.b[0].size());
       const uint8_t *in = m.in(c.b[0]);
       char *out = cc(m.out(n));
       fingera_to_base64_urlsafe(in, c.b[0].size(), out);
       o.n("len", n).b("text", out, n);
     },
     REF { std::string s = ref::b64_enc(c.b[0], true); o.n("len", s.size()).t("text", s); }},
    {"from_base64", "C04 C05", true, false, GEN {
       bytes t = B(ref::b64_enc(gdata(r, 300), false));
       if (r.chance(1, 4)) while (!t.empty() && t.back() == '=') t.pop_back();
       c.b = {gtext(r, t, B64A)};
     },
     RUN {
       const uint8_t *in = m.in(c.b[0]);
       size_t cap = fingera_from_base64_length((const char *)in, c.b[0].size());
       uint8_t *out = m.out(cap);
       size_t n = fingera_from_base64((const char *)in, c.b[0].size(), out);
       o.n("cap", cap).n("ret", n).b("out", out, n > cap ? cap : n);
     },
     REF { bytes d = ref::b64_dec(S(c.b[0]), false); o.n("cap", ref::b64_dec_len(S(c.b[0]), false)).n("ret", d.size()).b("out", d); }},
    {"from_base64_urlsafe", "C04 C05", true, false, GEN { c.b = {gtext(r, B(ref::b64_enc(gdata(r, 300), true)), B64U)}; },
     RUN {
       const uint8_t *in = m.in(c.b[0]);
       size_t cap = fingera_from_base64_urlsafe_length(c.b[0].size());
       uint8_t *out = m.out(cap);
       size_t n = fingera_from_base64_urlsafe((const char *)in, c.b[0].size(), out);
       o.n("cap", cap).n("ret", n).b("out", out, n > cap ? cap : n);
     },
     REF { bytes d = ref::b64_dec(S(c.b[0]), true); o.n("cap", ref::b64_dec_len(S(c.b[0]), true)).n("ret", d.size()).b("out", d); }},
    {"to_base58", "C06", false, false, GEN { c.b = {gdata(r, 500)}; },
     RUN {
       size_t cap = fingera_to_base58_length(c.b[0].size());
       const uint8_t *in = m.in(c.b[0]);
       char *out = cc(m.out(cap));
       size_t n = fingera_to_base58(in, c.b[0].size(), out);
       o.n("ret", n).b("text", out, n > cap ? cap : n);
     },
     REF { std::string s = ref::b58_enc(c.b[0]); o.n("ret", s.size()).t("text", s); }},
    {"from_base58", "C06", true, false, GEN { c.b = {gtext(r, B(ref::b58_enc(gdata(r, 500))), B58A)}; },
     RUN {
       const uint8_t *in = m.in(c.b[0]);
       size_t cap = fingera_from_base58_length(c.b[0].size());
       uint8_t *out = m.out(cap);
       size_t n = fingera_from_base58((const char *)in, c.b[0].size(), out);
       o.n("ret", n).b("out", out, n > cap ? cap : n);
     },
     REF { bytes d; if (!ref::b58_dec(S(c.b[0]), d)) d.clear(); o.n("ret", d.size()).b("out", d); }},
    {"to_base58_check", "C07", false, false, GEN { c.b = {gdata(r, 300), gen_bytes(r, r.chance(1, 2) ? r.below(9) : r.chance(2, 3) ? r.below(80) : gen_len(r, 600))}; },
     RUN {
       size_t cap = fingera_to_base58_check_length(c.b[0].size(), c.b[1].size());
       const uint8_t *in = m.in(c.b[0]), *pre = m.in(c.b[1]);
       char *out = cc(m.out(cap));
       size_t n = fingera_to_base58_check(in, c.b[0].size(), pre, c.b[1].size(), out);
       o.n("ret", n).b("text", out, n > cap ? cap : n);
     },
     REF { std::string s = ref::b58c_enc(c.b[1], c.b[0]); o.n("ret", s.size()).t("text", s); }},
    {"from_base58_check", "C07", true, false, GEN {
       bytes d = gdata(r, 300);
       if (r.chance(1, 4)) { // damage one checksum or body bit below the text level
         bytes h = ref::hash256(d), e = cat(d, bytes(h.begin(), h.begin() + 4));
         size_t at = r.chance(2, 3) ? e.size() - 1 - r.below(4) : r.below(e.size());
         e[at] ^= (uint8_t)(1u << r.below(8));
         c.b = {B(ref::b58_enc(e))};
       } else c.b = {gtext(r, B(ref::b58c_enc({}, d)), B58A)};
     },
     RUN {
       const uint8_t *in = m.in(c.b[0]);
       size_t cap = fingera_from_base58_check_length(c.b[0].size());
       uint8_t *out = m.out(cap);
       size_t n = fingera_from_base58_check((const char *)in, c.b[0].size(), out);
       o.n("ret", n).b("out", out, n > cap ? cap : n);
     },
     REF { bytes d; if (!ref::b58c_dec(S(c.b[0]), d)) d.clear(); o.n("ret", d.size()).b("out", d); }},
    {"bech32_encode", "C08", false, false, GEN { c.b = {B(gen_hrp(r, r.chance(1, 4) ? 83 : 10)), gen5(r, bech_len(r))}; },
     RUN {
       size_t n = fingera_bech32_encode_length(c.b[0].size(), c.b[1].size());
       const uint8_t *h = m.in(c.b[0]), *d = m.in(c.b[1]);
       char *out = cc(m.out(n));
       fingera_bech32_encode((const char *)h, c.b[0].size(), d, c.b[1].size(), out);
       o.n("len", n).b("text", out, n);
     },
     REF { std::string s = ref::bech_enc(S(c.b[0]), c.b[1]); o.n("len", s.size()).t("text", s); }},
    {"bech32_decode", "C08", true, false, GEN {
       std::string h = gen_hrp(r, r.chance(1, 4) ? 83 : 10);
       size_t room = 83 - h.size();
       size_t n = r.chance(1, 8) ? room + r.below(5) : (r.chance(1, 4) ? room - (room ? r.below(2) : 0) : r.below(room + 1));
       std::string s = ref::bech_enc(h, gen5(r, n));
       bytes t = B(s);
       if (r.chance(1, 5)) for (auto &x : t) if (x >= 'a' && x <= 'z') x = (uint8_t)(x - 32);
       if (r.chance(1, 4)) { // a few symbol errors inside the data part
         for (size_t k = 1 + r.below(4); k--;) t[t.size() - 1 - r.below(n + 6)] = (uint8_t)BECA[r.below(32)];
       } else if (r.chance(1, 3)) t = gtext(r, t, BECA);
       else if (n && r.chance(1, 6)) { // an illegal symbol whose checksum fits if it stands for some value
         bytes d = gen5(r, n);
         size_t at = r.below(n);
         static const uint8_t as[] = {255, 255, 128, 127, 32, 31, 0};
         d[at] = as[r.below(sizeof as)];
         t = B(ref::bech_enc(h, d));
         t[h.size() + 1 + at] = r.byte();
       }
       c.b = {t};
       c.n = {r.chance(3, 4) ? h.size() + r.below(3) : r.below(h.size() + 1)};
       if (r.chance(1, 4)) c.n[0] = 200;
     },
     RUN {
       const uint8_t *in = m.in(c.b[0]);
       char *h = cc(m.out(c.n[0]));
       size_t *hs = (size_t *)m.inout(bytes((uint8_t *)&c.n[0], (uint8_t *)&c.n[0] + 8), true);
       size_t cap = c.b[0].size() > 7 ? c.b[0].size() - 7 : 0;
       if (cap > 90) cap = 90;
       uint8_t *out = m.out(cap);
       int n = fingera_bech32_decode((const char *)in, c.b[0].size(), h, hs, out);
       if (n < 0) { o.s += "bad"; case_detail = " code=" + std::to_string(n); return; }
       o.n("ret", n).n("hrplen", *hs).b("hrp", h, *hs > c.n[0] ? c.n[0] : *hs).b("out", out, (size_t)n > cap ? cap : (size_t)n);
     },
     REF {
       std::string h;
       bytes d;
       if (!ref::bech_dec(S(c.b[0]), h, d) || h.size() > c.n[0]) { o.s += "bad"; return; }
       o.n("ret", d.size()).n("hrplen", h.size()).t("hrp", h).b("out", d);
     }},
    {"encode_varint", "C10", false, false, GEN { uint64_t v = r.u64(); v >>= r.below(64); if (r.chance(1, 4)) { v = (1ull << r.below(64)); v += r.below(7) - 3; } if (r.chance(1, 8)) { unsigned __int128 e = 0; size_t k = 1 + r.below(10); for (size_t i = 0; i < k; i++) e = (e << 7) + 128; v = (uint64_t)e + r.below(5) - 2; } c.n = {v}; },
     RUN { uint8_t *out = m.out(10); size_t n = fingera_encode_varint(c.n[0], out); o.n("ret", n).b("out", out, n > 10 ? 10 : n); },
     REF { bytes b = ref::varint_enc(c.n[0]); o.n("ret", b.size()).b("out", b); }},
    {"decode_varint", "C10", true, false, GEN {
       bytes b;
       switch (r.below(4)) {
         case 0: b = ref::varint_enc(r.u64() >> r.below(64)); break;
         case 1: b = gen_bytes(r, r.below(14)); break;
         case 2: { b.assign(r.below(13), 0); for (auto &x : b) x = (uint8_t)(0x80 | (r.chance(1, 3) ? 0x7e : r.byte())); if (b.size()) b.back() &= 0x7f; break; }
         default: b = ref::varint_enc(~0ull - r.below(300)); if (r.chance(1, 2)) b[r.below(b.size())] ^= (uint8_t)(1u << r.below(7)); break;
       }
       if (r.chance(1, 3)) b = cat(b, gen_bytes(r, r.below(5)));
       if (r.chance(1, 5) && b.size()) b.resize(r.below(b.size()));
       c.b = {b};
     },
     RUN { const uint8_t *in = m.in(c.b[0]); uint64_t *v = (uint64_t *)m.out(8, true); size_t n = fingera_decode_varint(in, c.b[0].size(), v); o.n("ret", n); if (n) o.n("v", (long long)*v); },
     REF { uint64_t v = 0; size_t n = ref::varint_dec(c.b[0], v); o.n("ret", n); if (n) o.n("v", (long long)v); }},
    {"encode_zigzag", "C10", false, false, GEN { int64_t v = (int64_t)r.u64() >> r.below(64); if (r.chance(1, 6)) v = r.chance(1, 2) ? INT64_MIN + (int64_t)r.below(3) : INT64_MAX - (int64_t)r.below(3); if (r.chance(1, 5)) v = (int64_t)r.below(7) - 3; c.n = {(uint64_t)v}; },
     RUN { uint8_t *out = m.out(10); size_t n = fingera_encode_zigzag((int64_t)c.n[0], out); o.n("ret", n).b("out", out, n > 10 ? 10 : n); },
     REF { bytes b = ref::zigzag_enc((int64_t)c.n[0]); o.n("ret", b.size()).b("out", b); }},
    {"decode_zigzag", "C10", true, false, GEN {
       bytes b = r.chance(2, 3) ? ref::zigzag_enc((int64_t)r.u64() >> r.below(64)) : gen_bytes(r, r.below(13));
       if (r.chance(1, 5)) b = ref::varint_enc(r.below(6));
       if (r.chance(1, 3)) b = cat(b, gen_bytes(r, r.below(5)));
       if (r.chance(1, 5) && b.size()) b.resize(r.below(b.size()));
       c.b = {b};
     },
     RUN { const uint8_t *in = m.in(c.b[0]); int64_t *v = (int64_t *)m.out(8, true); size_t n = fingera_decode_zigzag(in, c.b[0].size(), v); o.n("ret", n); if (n) o.n("v", (long long)*v); },
     REF { int64_t v = 0; size_t n = ref::zigzag_dec(c.b[0], v); o.n("ret", n); if (n) o.n("v", (long long)v); }},
    // ------------------------------------------------------------- hashes ----
    {"sha1", "C11", false, false, gen_hash, run_hash<fingera_sha1, 20>, ref_hash<ref::sha1>},
    {"sha256", "C11", false, false, gen_hash, run_hash<fingera_sha2_256, 32>, ref_hash<ref::sha256>},
    {"sha512", "C11", false, false, gen_hash, run_hash<fingera_sha2_512, 64>, ref_hash<ref::sha512>},
    {"ripemd160", "C11", false, false, gen_hash, run_hash<fingera_ripemd160, 20>, ref_hash<ref::rmd160>},
    {"hmac_sha256", "C12", false, false, gen_hmac, run_hmac<fingera_hmac_sha256, 32>, REF { o.b("h", ref::hmac256(c.b[0], c.b[1])); }},
    {"hmac_sha512", "C12", false, false, gen_hmac, run_hmac<fingera_hmac_sha512, 64>, REF { o.b("h", ref::hmac512(c.b[0], c.b[1])); }},
    {"hash160", "C13", false, false, gen_hash, run_hash<fingera_btc_hash160, 20>, ref_hash<r_hash160>},
    {"hash256", "C13", false, false, gen_hash, run_hash<fingera_btc_hash256, 32>, ref_hash<r_hash256>},
    {"hash256_d64", "C13", false, false, GEN { size_t k = r.chance(1, 10) ? r.below(300) : r.below(20); c.b = {gen_bytes(r, 64 * k)}; },
     RUN {
       size_t k = c.b[0].size() / 64;
       const uint8_t *in = m.in(c.b[0]);
       uint8_t *out = m.out(32 * k);
       fingera_btc_hash256_d64(out, in, k);
       o.b("out", out, 32 * k);
     },
     REF {
       bytes all;
       all.reserve(c.b[0].size() / 2);
       for (size_t i = 0; i < c.b[0].size(); i += 64) {
         bytes h = ref::hash256(bytes(c.b[0].begin() + i, c.b[0].begin() + i + 64));
         all.insert(all.end(), h.begin(), h.end());
       }
       o.b("out", all);
     }},
    {"hash256_d64_over", "C13", false, false, GEN { size_t k = r.chance(1, 10) ? r.below(300) : r.below(20); c.b = {gen_bytes(r, 64 * k)}; },
     RUN {
       size_t k = c.b[0].size() / 64;
       uint8_t *p = m.inout(c.b[0]);
       fingera_btc_hash256_d64(p, p, k);
       o.b("out", p, 64 * k);
     },
     REF {
       bytes all;
       all.reserve(c.b[0].size());
       for (size_t i = 0; i < c.b[0].size(); i += 64) {
         bytes h = ref::hash256(bytes(c.b[0].begin() + i, c.b[0].begin() + i + 64));
         all.insert(all.end(), h.begin(), h.end());
       }
       all.insert(all.end(), c.b[0].begin() + all.size(), c.b[0].end());
       o.b("out", all);
     }},
    {"bip32_hash", "C13", false, false, GEN { c.b = {gen_bytes(r, 32), gen_bytes(r, 32)}; c.n = {gen_child(r), r.byte()}; },
     RUN {
       const uint8_t *code = m.in(c.b[0]), *d = m.in(c.b[1]);
       uint8_t *out = m.out(64);
       fingera_btc_bip32_hash(code, (uint32_t)c.n[0], (uint8_t)c.n[1], d, out);
       o.b("out", out, 64);
     },
     REF { o.b("out", ref::bip32_hash(c.b[0], (uint32_t)c.n[0], (uint8_t)c.n[1], c.b[1])); }},
    // ---------------------------------------------------------- addresses ----
    {"address_pubkey", "C09", false, false, gen_addr58, run_addr58<fingera_to_address_pubkey, true>, ref_ok},
    {"address_script", "C09", false, false, gen_addr58, run_addr58<fingera_to_address_script, false>, ref_ok},
    {"address_w0key", "C09", false, false, gen_segwit<0>, run_segwit<fingera_to_address_witnessv0_keyhash>, REF { ref_segwit(0, c.b[0], c, o); }},
    {"address_w0script", "C09", false, false, gen_segwit<1>, run_segwit<fingera_to_address_witnessv0_scripthash>, REF { ref_segwit(0, c.b[0], c, o); }},
    {"address_witness", "C09", false, false, gen_segwit<2>, run_segwit<fingera_to_address_witness_unknown>,
     REF {
       const bytes &b = c.b[0];
       if (b.size() < 3 || b.size() > 41 || b[0] < 1 || b[0] > 16) { o.n("ret", 0); return; }
       ref_segwit(b[0], bytes(b.begin() + 1, b.end()), c, o);
     }},
    {"address_w0_badsize", "C09", false, true, GEN { c.p = gen_params(r); size_t n; do n = r.below(70); while (n == 20 || n == 32); c.b = {gen_bytes(r, n)}; c.n = {r.below(2)}; },
     RUN {
       const chain_parameters *p = params(c, m);
       const uint8_t *id = m.in(c.b[0]);
       char *out = cc(m.out(200));
       o.n("ret", c.n[0] ? fingera_to_address_witnessv0_keyhash(id, c.b[0].size(), out, 200, p) : fingera_to_address_witnessv0_scripthash(id, c.b[0].size(), out, 200, p));
     },
     REF { (void)c; o.n("ret", 0); }},
    {"address_decode", "C09", true, false, GEN {
       c.p = gen_params(r);
       ref::Params q = r.chance(1, 5) ? gen_params(r) : c.p;
       std::string s;
       switch (r.below(8)) {
         case 0: s = ref::addr_pk(gen_bytes(r, r.chance(2, 3) ? 20 : r.below(120)), q); break;
         case 1: s = ref::addr_sc(gen_bytes(r, r.chance(2, 3) ? 20 : r.below(120)), q); break;
         case 2: s = ref::addr_segwit(0, gen_bytes(r, r.chance(3, 4) ? (r.chance(1, 2) ? 20 : 32) : r.below(42)), q); break;
         case 3: s = ref::addr_segwit((int)r.range(1, 16), gen_bytes(r, r.range(2, 40)), q); break;
         case 4: s = ref::addr_segwit((int)r.below(32), gen_bytes(r, r.below(46)), q); break;
         default: {  // raw symbols: padding bits, odd lengths
           bytes d = gen5(r, 1 + r.below(72));
           if (r.chance(2, 3)) d[0] = (uint8_t)r.below(18);
           if (r.chance(1, 2)) { bytes pr = ref::b32_raw_enc(gen_bytes(r, r.chance(1, 2) ? 20 : 32)); d.resize(1); d = cat(d, pr); if (r.chance(1, 2)) d[0] = 0; if (r.chance(1, 2)) d.back() ^= (uint8_t)(1u << r.below(5)); else if (r.chance(1, 2)) d.push_back((uint8_t)(r.chance(2, 3) ? 0 : r.below(32))); }
           s = ref::bech_enc(q.hrp, d);
         }
       }
       bytes t = B(s);
       if (r.chance(1, 6)) for (auto &x : t) if (x >= 'a' && x <= 'z') x = (uint8_t)(x - 32);
       if (r.chance(1, 3)) t = r.chance(1, 3) ? gtext(r, t, B58A) : mutate(r, t, r.chance(1, 2) ? BECA : B58A);
       c.b = {t};
       c.n = {r.chance(3, 4) ? t.size() : r.below(t.size() + 2)};
     },
     RUN {
       const chain_parameters *p = params(c, m);
       const uint8_t *in = m.in(c.b[0]);
       size_t cap = c.n[0];
       uint8_t *out = m.out(cap);
       size_t *os = (size_t *)m.inout(bytes((uint8_t *)&c.n[0], (uint8_t *)&c.n[0] + 8), true);
       int t = fingera_btc_address_decode((const char *)in, c.b[0].size(), out, os, p);
       bytes want;
       int wt = ref::addr_dec(S(c.b[0]), c.p, want);
       size_t announced = fingera_from_base58_check_length(c.b[0].size());
       // below the announced size a refusal is as good as the answer
       if (t == BTC_BAD_ADDRESS && wt != ref::BAD && cap < announced) { o.n("type", wt).b("out", want); return; }
       o.n("type", t);
       if (t != BTC_BAD_ADDRESS) o.b("out", out, *os > cap ? cap : *os);
     },
     REF { bytes d; int t = ref::addr_dec(S(c.b[0]), c.p, d); o.n("type", t); if (t != ref::BAD) o.b("out", d); }},
    // --------------------------------------------------------------- keys ----
    {"key_to_string", "C14", false, false, GEN { c.p = gen_params(r); c.b = {gen_key(r)}; c.n = {gen_flag(r)}; },
     RUN {
       const chain_parameters *p = params(c, m);
       const uint8_t *k = m.in(c.b[0]);
       size_t cap = fingera_key_string_max_length();
       char *out = cc(m.out(cap));
       size_t n = fingera_btc_key_to_string(k, out, (int)c.n[0], p);
       o.n("ret", n).b("text", out, n > cap ? cap : n);
     },
     REF { std::string s = ref::wif(c.b[0], c.n[0] != 0, c.p); o.n("ret", s.size()).t("text", s); }},
    {"key_from_string", "C14", true, false, GEN {
       c.p = gen_params(r);
       bytes k = r.chance(2, 3) ? gen_key(r) : gen_any_scalar(r);
       bytes pre = c.p.sk, pay = k;
       if (r.chance(1, 2)) pay.push_back(1);
       switch (r.below(12)) {
         case 0: pre = gen_params(r).sk; break;
         case 1: pre = gen_bytes(r, r.below(9)); break;
         case 2: pay.resize(32); pay.push_back(r.byte()); break;
         case 3: pay.resize(r.below(120)); break;
         case 4: pay.push_back((uint8_t)r.below(2)); break;
         case 5: if (pre.size() > 1) pre.erase(pre.begin()); break;
         case 6: pre[r.below(pre.size())] ^= (uint8_t)(1u << r.below(8)); break;
         default: break;
       }
       bytes t = B(ref::b58c_enc(pre, pay));
       if (r.chance(1, 4)) t = r.chance(1, 3) ? gtext(r, t, B58A) : mutate(r, t, B58A);
       c.b = {t};
     },
     RUN {
       const chain_parameters *p = params(c, m);
       const uint8_t *in = m.in(c.b[0]);
       uint8_t *k = m.out(32);
       int *comp = (int *)m.out(sizeof(int), true);
       int ok = fingera_btc_key_from_string((const char *)in, c.b[0].size(), k, comp, p);
       o.n("ok", ok != 0);
       if (ok) o.n("compressed", *comp).b("key", k, 32);
     },
     REF { bytes k; bool comp = false; bool ok = ref::wif_dec(S(c.b[0]), c.p, k, comp); o.n("ok", ok); if (ok) o.n("compressed", comp).b("key", k); }},
    {"key_derive", "C18", false, false, GEN { c.b = {gen_key(r), gen_bytes(r, 32)}; c.n = {gen_child(r)}; },
     RUN {
       const uint8_t *k = m.in(c.b[0]), *code = m.in(c.b[1]);
       uint8_t *ko = m.out(32), *co = m.out(32);
       int ok = fingera_btc_key_derive(k, code, ko, co, (uint32_t)c.n[0]);
       o.n("ok", ok != 0);
       if (ok) o.b("key", ko, 32).b("code", co, 32);
     },
     REF { bytes k, co; bool ok = ref::ckd_priv(c.b[0], c.b[1], (uint32_t)c.n[0], k, co); o.n("ok", ok); if (ok) o.b("key", k).b("code", co); }},
    {"key_encode", "C15", false, false, GEN { c.b = {gen_key(r)}; c.n = {r.chance(1, 2) ? 214ull : 279ull}; },
     RUN {
       const uint8_t *k = m.in(c.b[0]);
       uint8_t *out = m.out(c.n[0]);
       int ok = fingera_btc_key_encode(k, out, c.n[0]);
       o.n("ok", ok != 0).b("der", out, c.n[0]);
     },
     REF { o.n("ok", 1).b("der", ref::key_der(c.b[0], c.n[0] == 214)); }},
    {"key_encode_badsize", "C15", false, true, GEN { c.b = {gen_key(r)}; do c.n = {r.chance(1, 2) ? r.below(400) : 210 + r.below(75)}; while (c.n[0] == 214 || c.n[0] == 279); },
     RUN { const uint8_t *k = m.in(c.b[0]); uint8_t *out = m.out(c.n[0]); o.n("ok", fingera_btc_key_encode(k, out, c.n[0]) != 0); },
     REF { (void)c; o.n("ok", 0); }},
    {"key_decode", "C15", true, false, GEN { c.b = {gen_key_der(r)}; },
     RUN { const uint8_t *in = m.in(c.b[0]); uint8_t *k = m.out(32); int ok = fingera_btc_key_decode(in, c.b[0].size(), k); o.n("ok", ok != 0); if (ok) o.b("key", k, 32); },
     REF { bytes k; bool ok = ref::key_der_dec(c.b[0], k); o.n("ok", ok); if (ok) o.b("key", k); }},
    {"key_get_pub", "C15", false, false, GEN { c.b = {gen_key(r)}; },
     RUN { const uint8_t *k = m.in(c.b[0]); uint8_t *p = m.out(64); fingera_btc_key_get_pub(k, p); o.b("pub", plain_pub(p)); },
     REF { o.b("pub", ref::pub_of(c.b[0], false)); }},
    {"pubkey_derive", "C18", true, false, GEN { bytes e = r.chance(4, 5) ? gen_pub(r, true) : gen_pub_enc(r); e.resize(33); c.b = {e, gen_bytes(r, 32)}; c.n = {r.chance(5, 6) ? gen_child(r) & 0x7fffffff : gen_child(r)}; },
     RUN {
       const uint8_t *k = m.in(c.b[0]), *code = m.in(c.b[1]);
       uint8_t *ko = m.out(33), *co = m.out(32);
       int ok = fingera_btc_pubkey_derive(k, code, ko, co, (uint32_t)c.n[0]);
       o.n("ok", ok != 0);
       if (ok) o.b("key", ko, 33).b("code", co, 32);
     },
     REF { bytes k, co; bool ok = ref::ckd_pub(c.b[0], c.b[1], (uint32_t)c.n[0], k, co); o.n("ok", ok); if (ok) o.b("key", k).b("code", co); }},
    {"pubkey_encode", "C15", false, false, GEN { c.b = {gen_pub(r, false)}; c.n = {r.chance(1, 2) ? 33ull : 65ull}; },
     RUN { const uint8_t *p = m.in(opaque_pub(c.b[0])); uint8_t *out = m.out(c.n[0]); int ok = fingera_btc_pubkey_encode(p, out, c.n[0]); o.n("ok", ok != 0).b("enc", out, c.n[0]); },
     REF { o.n("ok", 1).b("enc", ref::pub_convert(c.b[0], c.n[0] == 33)); }},
    {"pubkey_encode_badsize", "C15", false, true, GEN { c.b = {gen_pub(r, false)}; do c.n = {r.below(100)}; while (c.n[0] == 33 || c.n[0] == 65); },
     RUN { const uint8_t *p = m.in(opaque_pub(c.b[0])); uint8_t *out = m.out(c.n[0]); o.n("ok", fingera_btc_pubkey_encode(p, out, c.n[0]) != 0); },
     REF { (void)c; o.n("ok", 0); }},
    {"pubkey_decode", "C15", true, false, GEN { c.b = {gen_pub_enc(r)}; },
     RUN { const uint8_t *in = m.in(c.b[0]); uint8_t *p = m.out(64); int ok = fingera_btc_pubkey_decode(in, c.b[0].size(), p); o.n("ok", ok != 0); if (ok) o.b("pub", plain_pub(p)); },
     REF { bytes p; bool ok = ref::pub_parse(c.b[0], p); o.n("ok", ok); if (ok) o.b("pub", p); }},
    {"sign", "C16", false, false, GEN { c.b = {gen_key(r), gen_bytes(r, 32)}; if (r.chance(1, 24)) special_signature(r.below(special_signatures()), c.b[0], c.b[1]); },
     RUN {
       const uint8_t *k = m.in(c.b[0]), *h = m.in(c.b[1]);
       uint8_t *s = m.out(64);
       fingera_btc_key_sign(k, h, s);
       o.b("rs", plain_sig(s));
       bytes op(s, s + 64);
       const uint8_t *sp = m.in(op);
       uint8_t *d = m.out(BTC_SIGNATURE_SIZE);
       size_t n = fingera_btc_signature_encode(sp, d);
       o.b("der", d, n > 72 ? 72 : n);
     },
     REF { bytes rs; ref::sign(c.b[0], c.b[1], rs); o.b("rs", rs).b("der", ref::sig_der(rs)); }},
    {"signature_encode", "C17", false, false, GEN { c.b = {gen_sig(r)}; },
     RUN {
       bytes op;
       if (!opaque_sig(c.b[0], op)) abort();
       const uint8_t *sp = m.in(op);
       uint8_t *d = m.out(BTC_SIGNATURE_SIZE);
       size_t n = fingera_btc_signature_encode(sp, d);
       o.n("ret", n).b("der", d, n > 72 ? 72 : n);
     },
     REF { bytes d = ref::sig_der(c.b[0]); o.n("ret", d.size()).b("der", d); }},
    {"signature_decode", "C17", true, false, GEN { c.b = {r.chance(15, 16) ? gen_der_sig(r) : gdata(r, 300)}; },
     RUN { const uint8_t *in = m.in(c.b[0]); uint8_t *s = m.out(64); int ok = fingera_btc_signature_decode(in, c.b[0].size(), s); o.n("ok", ok != 0); if (ok) o.b("rs", plain_sig(s)); },
     REF { bytes rs; bool ok = ref::sig_lax(c.b[0], rs); o.n("ok", ok); if (ok) o.b("rs", rs); }},
    {"verify", "C16", false, false, GEN {
       bytes k = gen_key(r), h = gen_bytes(r, 32), rs;
       ref::sign(k, h, rs);
       bytes pub = ref::pub_of(k, false);
       switch (r.below(12)) {
         case 0: case 1: break;
         case 2: case 3: { bytes s(rs.begin() + 32, rs.end()); s = ref::scalar_neg(s); std::copy(s.begin(), s.end(), rs.begin() + 32); break; }
         case 4: h[r.below(32)] ^= (uint8_t)(1u << r.below(8)); break;
         case 5: rs[r.below(64)] ^= (uint8_t)(1u << r.below(8)); break;
         case 6: pub = gen_pub(r, false); break;
         case 7: { bytes q = ref::pub_convert(pub, true); q[0] ^= 1; pub = ref::pub_convert(q, false); break; }
         case 8: rs = gen_sig(r); break;
         case 9: std::rotate(rs.begin(), rs.begin() + 32, rs.end()); break;
         case 10: { for (int i = 0; i < 32; i++) rs[(r.chance(1, 2) ? 0 : 32) + i] = 0; break; }
         default: { bytes k2 = gen_key(r); bytes rs2; ref::sign(k2, h, rs2); if (r.chance(1, 2)) std::copy(rs2.begin(), rs2.begin() + 32, rs.begin()); else std::copy(rs2.begin() + 32, rs2.end(), rs.begin() + 32); }
       }
       bytes op;
       if (!opaque_sig(rs, op)) rs = cat(gen_key(r), gen_key(r));
       c.b = {pub, h, rs};
     },
     RUN {
       bytes op;
       opaque_sig(c.b[2], op);
       const uint8_t *p = m.in(opaque_pub(c.b[0])), *h = m.in(c.b[1]), *s = m.in(op);
       o.n("ok", fingera_btc_key_verify(p, h, s) != 0);
     },
     REF { o.n("ok", ref::verify(c.b[0], c.b[1], c.b[2])); }},
    {"key_keyid", "C13", false, false, GEN { c.b = {gen_key(r)}; c.n = {gen_flag(r)}; },
     RUN { const uint8_t *k = m.in(c.b[0]); uint8_t *o20 = m.out(20); fingera_btc_key_keyid(k, (int)c.n[0], o20); o.b("id", o20, 20).n("fp", fingera_btc_key_fingerprint(k, (int)c.n[0])); },
     REF { bytes h = ref::hash160(ref::pub_of(c.b[0], c.n[0] != 0)); uint32_t f; memcpy(&f, h.data(), 4); o.b("id", h).n("fp", f); }},
    {"pubkey_keyid", "C13", false, false, GEN { c.b = {gen_pub(r, false)}; c.n = {gen_flag(r)}; },
     RUN { const uint8_t *p = m.in(opaque_pub(c.b[0])); uint8_t *o20 = m.out(20); fingera_btc_pubkey_keyid(p, (int)c.n[0], o20); o.b("id", o20, 20); },
     REF { o.b("id", ref::hash160(ref::pub_convert(c.b[0], c.n[0] != 0))); }},
    {"pubkey_fingerprint", "C13", false, false, GEN { c.b = {gen_pub(r, true)}; },
     RUN { const uint8_t *p = m.in(c.b[0]); o.n("fp", fingera_btc_pubkey_fingerprint(p)); },
     REF { bytes h = ref::hash160(c.b[0]); uint32_t f; memcpy(&f, h.data(), 4); o.n("fp", f); }},
    // ------------------------------------------------------ extended keys ----
    {"exkey_init", "C18", false, false, GEN { c.b = {gdata(r, 400)}; },
     RUN {
       const uint8_t *seed = m.in(c.b[0]);
       fingera_ex_key *k = (fingera_ex_key *)m.out(sizeof(fingera_ex_key), true);
       fingera_exkey_init(k, seed, c.b[0].size());
       put_ext(o, k->ext);
       o.b("key", k->key, 32);
     },
     REF { bytes h = ref::hmac512(B("Bitcoin seed"), c.b[0]); put_ext(o, 0, 0, 0, bytes(h.begin() + 32, h.end())); o.b("key", bytes(h.begin(), h.begin() + 32)); }},
    {"exkey_derive", "C18", false, false, GEN { gen_ext(r, c); c.b = {gen_key(r), gen_bytes(r, 32)}; c.n.push_back(gen_child(r)); c.n.push_back(gen_child(r)); },
     RUN {
       const fingera_ex_key *k = (const fingera_ex_key *)m.in(ext_struct(c, 0, false), true);
       fingera_ex_key *d = (fingera_ex_key *)m.out(sizeof(fingera_ex_key), true);
       int ok = fingera_exkey_derive(k, d, (uint32_t)c.n[3], (uint32_t)c.n[4]);
       o.n("ok", ok != 0);
       if (ok) { put_ext(o, d->ext); o.b("key", d->key, 32); }
     },
     REF {
       bytes k, co;
       bool ok = c.n[0] < 255 && ref::ckd_priv(c.b[0], c.b[1], (uint32_t)c.n[3], k, co);
       o.n("ok", ok);
       if (ok) { put_ext(o, (int)c.n[0] + 1, (uint32_t)c.n[4], (uint32_t)c.n[3], co); o.b("key", k); }
     }},
    {"exkey_get_pub", "C18", false, false, GEN { gen_ext(r, c); c.b = {gen_key(r), gen_bytes(r, 32)}; },
     RUN {
       const fingera_ex_key *k = (const fingera_ex_key *)m.in(ext_struct(c, 0, false), true);
       fingera_ex_pubkey *p = (fingera_ex_pubkey *)m.out(sizeof(fingera_ex_pubkey), true);
       fingera_exkey_get_pub(k, p);
       put_ext(o, p->ext);
       o.b("key", p->c_pubkey, 33);
     },
     REF { put_ext(o, (int)c.n[0], (uint32_t)c.n[1], (uint32_t)c.n[2], c.b[1]); o.b("key", ref::pub_of(c.b[0], true)); }},
    {"expubkey_derive", "C18", true, false, GEN {
       gen_ext(r, c);
       bytes e = r.chance(4, 5) ? gen_pub(r, true) : gen_pub_enc(r);
       e.resize(33);
       c.b = {e, gen_bytes(r, 32)};
       c.n.push_back(r.chance(5, 6) ? gen_child(r) & 0x7fffffff : gen_child(r));
       c.n.push_back(gen_child(r));
     },
     RUN {
       const fingera_ex_pubkey *k = (const fingera_ex_pubkey *)m.in(ext_struct(c, 0, true), true);
       fingera_ex_pubkey *d = (fingera_ex_pubkey *)m.out(sizeof(fingera_ex_pubkey), true);
       int ok = fingera_expubkey_derive(k, d, (uint32_t)c.n[3], (uint32_t)c.n[4]);
       o.n("ok", ok != 0);
       if (ok) { put_ext(o, d->ext); o.b("key", d->c_pubkey, 33); }
     },
     REF {
       bytes k, co;
       bool ok = c.n[0] < 255 && ref::ckd_pub(c.b[0], c.b[1], (uint32_t)c.n[3], k, co);
       o.n("ok", ok);
       if (ok) { put_ext(o, (int)c.n[0] + 1, (uint32_t)c.n[4], (uint32_t)c.n[3], co); o.b("key", k); }
     }},
    {"exkey_encode", "C19", false, false, GEN { gen_ext(r, c); c.b = {gen_any_scalar(r), gen_bytes(r, 32)}; },
     RUN { const fingera_ex_key *k = (const fingera_ex_key *)m.in(ext_struct(c, 0, false), true); uint8_t *out = m.out(74); fingera_exkey_encode(k, out); o.b("enc", out, 74); },
     REF { ref::Ext e; e.depth = (uint8_t)c.n[0]; e.fp = (uint32_t)c.n[1]; e.child = (uint32_t)c.n[2]; e.code = c.b[1]; o.b("enc", ref::ext_payload(e, cat(bytes(1, 0), c.b[0]))); }},
    {"exkey_decode", "C19", true, false, GEN { c.b = {gen_bytes(r, 74)}; },
     RUN { const uint8_t *in = m.in(c.b[0]); fingera_ex_key *k = (fingera_ex_key *)m.out(sizeof(fingera_ex_key), true); fingera_exkey_decode(in, k); put_ext(o, k->ext); o.b("key", k->key, 32); },
     REF {
       const bytes &b = c.b[0];
       put_ext(o, b[0], (uint32_t)(b[1] | b[2] << 8 | b[3] << 16) | (uint32_t)b[4] << 24, (uint32_t)b[5] << 24 | (uint32_t)(b[6] << 16 | b[7] << 8 | b[8]), bytes(b.begin() + 9, b.begin() + 41));
       o.b("key", bytes(b.begin() + 42, b.end()));
     }},
    {"exkey_to_string", "C19", false, false, GEN { c.p = gen_params(r); gen_ext(r, c); c.b = {gen_any_scalar(r), gen_bytes(r, 32)}; },
     RUN {
       const chain_parameters *p = params(c, m);
       const fingera_ex_key *k = (const fingera_ex_key *)m.in(ext_struct(c, 0, false), true);
       size_t cap = fingera_exkey_string_max_length();
       char *out = cc(m.out(cap));
       size_t n = fingera_exkey_to_string(k, out, p);
       o.n("ret", n).b("text", out, n > cap ? cap : n);
     },
     REF { ref::Ext e; e.depth = (uint8_t)c.n[0]; e.fp = (uint32_t)c.n[1]; e.child = (uint32_t)c.n[2]; e.code = c.b[1]; std::string s = ref::b58c_enc(c.p.xprv, ref::ext_payload(e, cat(bytes(1, 0), c.b[0]))); o.n("ret", s.size()).t("text", s); }},
    {"exkey_from_string", "C19", true, false, GEN { c.p = gen_params(r); c.b = {gen_xstr(r, c.p, false)}; },
     RUN {
       const chain_parameters *p = params(c, m);
       const uint8_t *in = m.in(c.b[0]);
       fingera_ex_key *k = (fingera_ex_key *)m.out(sizeof(fingera_ex_key), true);
       int ok = fingera_exkey_from_string((const char *)in, c.b[0].size(), k, p);
       o.n("ok", ok != 0);
       if (ok) { put_ext(o, k->ext); o.b("key", k->key, 32); }
     },
     REF {
       bytes b;
       bool ok = ref::b58c_dec(S(c.b[0]), b) && b.size() == c.p.xprv.size() + 74 && std::equal(c.p.xprv.begin(), c.p.xprv.end(), b.begin());
       if (ok) { b.erase(b.begin(), b.begin() + c.p.xprv.size()); ok = b[41] == 0 && ref::key_valid(bytes(b.begin() + 42, b.end())); }
       o.n("ok", ok);
       if (!ok) return;
       put_ext(o, b[0], (uint32_t)(b[1] | b[2] << 8 | b[3] << 16) | (uint32_t)b[4] << 24, (uint32_t)b[5] << 24 | (uint32_t)(b[6] << 16 | b[7] << 8 | b[8]), bytes(b.begin() + 9, b.begin() + 41));
       o.b("key", bytes(b.begin() + 42, b.end()));
     }},
    {"expubkey_encode", "C19", false, false, GEN { gen_ext(r, c); c.b = {r.chance(1, 2) ? gen_pub(r, true) : gen_bytes(r, 33), gen_bytes(r, 32)}; },
     RUN { const fingera_ex_pubkey *k = (const fingera_ex_pubkey *)m.in(ext_struct(c, 0, true), true); uint8_t *out = m.out(74); fingera_expubkey_encode(k, out); o.b("enc", out, 74); },
     REF { ref::Ext e; e.depth = (uint8_t)c.n[0]; e.fp = (uint32_t)c.n[1]; e.child = (uint32_t)c.n[2]; e.code = c.b[1]; o.b("enc", ref::ext_payload(e, c.b[0])); }},
    {"expubkey_decode", "C19", true, false, GEN { c.b = {gen_bytes(r, 74)}; },
     RUN { const uint8_t *in = m.in(c.b[0]); fingera_ex_pubkey *k = (fingera_ex_pubkey *)m.out(sizeof(fingera_ex_pubkey), true); fingera_expubkey_decode(in, k); put_ext(o, k->ext); o.b("key", k->c_pubkey, 33); },
     REF {
       const bytes &b = c.b[0];
       put_ext(o, b[0], (uint32_t)(b[1] | b[2] << 8 | b[3] << 16) | (uint32_t)b[4] << 24, (uint32_t)b[5] << 24 | (uint32_t)(b[6] << 16 | b[7] << 8 | b[8]), bytes(b.begin() + 9, b.begin() + 41));
       o.b("key", bytes(b.begin() + 41, b.end()));
     }},
    {"expubkey_to_string", "C19", false, false, GEN { c.p = gen_params(r); gen_ext(r, c); c.b = {r.chance(1, 2) ? gen_pub(r, true) : gen_bytes(r, 33), gen_bytes(r, 32)}; },
     RUN {
       const chain_parameters *p = params(c, m);
       const fingera_ex_pubkey *k = (const fingera_ex_pubkey *)m.in(ext_struct(c, 0, true), true);
       size_t cap = fingera_exkey_string_max_length();
       char *out = cc(m.out(cap));
       size_t n = fingera_expubkey_to_string(k, out, p);
       o.n("ret", n).b("text", out, n > cap ? cap : n);
     },
     REF { ref::Ext e; e.depth = (uint8_t)c.n[0]; e.fp = (uint32_t)c.n[1]; e.child = (uint32_t)c.n[2]; e.code = c.b[1]; std::string s = ref::b58c_enc(c.p.xpub, ref::ext_payload(e, c.b[0])); o.n("ret", s.size()).t("text", s); }},
    {"expubkey_from_string", "C19", true, false, GEN { c.p = gen_params(r); c.b = {gen_xstr(r, c.p, true)}; },
     RUN {
       const chain_parameters *p = params(c, m);
       const uint8_t *in = m.in(c.b[0]);
       fingera_ex_pubkey *k = (fingera_ex_pubkey *)m.out(sizeof(fingera_ex_pubkey), true);
       int ok = fingera_expubkey_from_string((const char *)in, c.b[0].size(), k, p);
       o.n("ok", ok != 0);
       if (ok) { put_ext(o, k->ext); o.b("key", k->c_pubkey, 33); }
     },
     REF {
       bytes b, q;
       bool ok = ref::b58c_dec(S(c.b[0]), b) && b.size() == c.p.xpub.size() + 74 && std::equal(c.p.xpub.begin(), c.p.xpub.end(), b.begin());
       if (ok) { b.erase(b.begin(), b.begin() + c.p.xpub.size()); ok = ref::pub_parse(bytes(b.begin() + 41, b.end()), q); }
       o.n("ok", ok);
       if (!ok) return;
       put_ext(o, b[0], (uint32_t)(b[1] | b[2] << 8 | b[3] << 16) | (uint32_t)b[4] << 24, (uint32_t)b[5] << 24 | (uint32_t)(b[6] << 16 | b[7] << 8 | b[8]), bytes(b.begin() + 9, b.begin() + 41));
       o.b("key", bytes(b.begin() + 41, b.end()));
     }},
    {"cleanse", "C21", false, false, GEN { c.b = {gdata(r, 3000)}; for (auto &x : c.b[0]) if (x == 0xCC || x == 0) x = 0x41; },
     RUN {
       // every byte of the range overwritten by one constant, nothing else touched
       uint8_t *p = m.inout(c.b[0]);
       fingera_cleanse(p, c.b[0].size());
       size_t same = 0;
       for (size_t i = 0; i < c.b[0].size(); i++) same += p[i] == c.b[0][i];
       o.n("kept_bytes", same > c.b[0].size() / 64 + 1 ? (long long)same : 0);
     },
     REF { (void)c; o.n("kept_bytes", 0); }},
};

const Op *op_by_name(const std::string &n) {
  for (auto &o : OPS) if (n == o.name) return &o;
  fprintf(stderr, "no op %s\n", n.c_str());
  exit(2);
}
std::vector<const Op *> ops_of(const std::string &prop) {
  std::vector<const Op *> v;
  for (auto &o : OPS) if (strstr(o.props, prop.c_str())) v.push_back(&o);
  return v;
}

void ops_init() { ref::init(); }

// The same value in two arguments, or one a part of the other: what a cache, a
// shortcut or a mixed-up variable confuses.  Only where every value is allowed.
void relate(const char *op, Rng &r, Case &c) {
  std::string n = op;
  bool hmac = n == "hmac_sha256" || n == "hmac_sha512";
  if (hmac || n == "to_base58_check") {
    bytes &a = c.b[r.below(2)], &b = &a == &c.b[0] ? c.b[1] : c.b[0];
    if (n == "to_base58_check" && &b == &c.b[1] && a.size() > 600) return;
    switch (r.below(3)) {
      case 0: b = a; break;
      case 1: b = bytes(a.begin(), a.begin() + (long)r.below(a.size() + 1)); break;
      default: if (a.size() < 300) { b = a; b.push_back(0); } break;
    }
    return;
  }
  if (n == "bip32_hash" || n == "sign" || n == "key_derive" || n == "exkey_derive" || n == "exkey_get_pub" || n == "exkey_encode" || n == "exkey_to_string") {
    if (r.chance(1, 2)) c.b[1] = c.b[0];   // chain code or hash = key
  }
  if (n == "pubkey_derive" || n == "expubkey_derive" || n == "expubkey_encode" || n == "expubkey_to_string") {
    if (r.chance(1, 2) && c.b[0].size() >= 33 && c.b[1].size() == 32) c.b[1] = bytes(c.b[0].begin() + 1, c.b[0].begin() + 33);
  }
  if ((n.compare(0, 6, "exkey_") == 0 || n.compare(0, 9, "expubkey_") == 0) && c.n.size() >= 3 && n.find("from_string") == std::string::npos) {
    // depth, fingerprint, child number, new child number, new fingerprint
    size_t i = 1 + r.below(c.n.size() - 1), j = r.below(c.n.size());
    if (c.n[j] <= 0x7fffffff || n.compare(0, 9, "expubkey_")) c.n[i] = c.n[j];
  }
}

thread_local std::string case_detail;
static void process_state(unsigned s) {
  static const locale_t foreign = newlocale(LC_CTYPE_MASK, "hostile", (locale_t)0);
  static thread_local unsigned now = 0;
  if (s & PS_ERRNO) errno = EDOM;
  if (s == now) return;
  if ((s ^ now) & PS_LOCALE) {
    if (foreign) {
      uselocale((s & PS_LOCALE) ? foreign : LC_GLOBAL_LOCALE);
      if (s & PS_LOCALE) process_states[0]++;
    } else
      process_states[1]++;
  }
  if ((s ^ now) & (PS_ROUND_UP | PS_ROUND_DOWN)) {
    fesetround((s & PS_ROUND_UP) ? FE_UPWARD : (s & PS_ROUND_DOWN) ? FE_DOWNWARD : FE_TONEAREST);
    if (s & (PS_ROUND_UP | PS_ROUND_DOWN)) process_states[2]++;
  }
  now = s;
}
std::string run_case(const Case &c, Mem &m, const MemMode &mode) {
  case_detail.clear();
  m.begin(mode);
  Res o;
  process_state(mode.process);
  c.op->run(c, m, o);
  process_state(0);
  std::string bad = m.check();
  if (!bad.empty()) o.s += " MEMORY: " + bad;
  return o.s;
}
std::string ref_case(const Case &c) {
  Res o;
  c.op->ref(c, o);
  return o.s;
}
bool check_case(const Case &c, Mem &m, const MemMode &mode) {
  std::string want = ref_case(c);
  std::string got = run_case(c, m, mode);
  stats.evaluations++;
  if (got == want) return true;
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  violation(std::string(c.op->name) + ":" + (got.find(" MEMORY: ") != std::string::npos ? "memory" : "value"),
            "got " + shorten(got, 700) + " | want " + shorten(want, 700) + " | first difference at character " + std::to_string(i));
  return false;
}
