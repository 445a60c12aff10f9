// Inputs of more than 4 GiB.  The bulk of input and output is one window of
// memory mapped over and over, so that both fit; the last pages are private and
// hold the distinct end, which shows whether the whole length was processed.
#include "ops.hpp"

#include <sys/syscall.h>

extern "C" {
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
}
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <secp256k1.h>

namespace {
bytes cat2(const bytes &a, const bytes &b) { bytes o = a; o.insert(o.end(), b.begin(), b.end()); return o; }
bytes rnd2(Rng &r, size_t n) { bytes b(n); for (auto &x : b) x = r.byte(); return b; }
struct Alias {
  uint8_t *base = nullptr, *window = nullptr;
  size_t period, total, bulk, map;
  // `total` accessible bytes: whole periods aliased, the rest (at least one page) private
  Alias(size_t per, size_t tot) : period(per), total(tot) {
    bulk = tot / per * per;
    size_t tail = (tot - bulk + 4095) / 4096 * 4096 + 4096;
    map = bulk + tail;
    int fd = (int)syscall(SYS_memfd_create, "alias", 0);
    if (fd < 0 || ftruncate(fd, (off_t)per) != 0) { perror("memfd"); _exit(2); }
    window = (uint8_t *)mmap(0, per, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    base = (uint8_t *)mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED || window == MAP_FAILED) { perror("mmap"); _exit(2); }
    for (size_t i = 0; i < bulk; i += per)
      if (mmap(base + i, per, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(2); }
    close(fd);
  }
  ~Alias() { munmap(window, period); munmap(base, map); }
  uint8_t *tail() { return base + bulk; }
};

bytes noise(size_t n, uint64_t x) {
  bytes b(n);
  for (auto &v : b) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v = (uint8_t)(x >> 32); }
  return b;
}

struct Codec {
  const char *name;
  size_t num, den;  // output bytes per input byte
  bool decoder;
  bytes (*enc)(const bytes &);
  size_t (*call)(const uint8_t *, size_t, uint8_t *, bool &has_count);
};
const Codec CODECS[] = {
    {"to_hex", 2, 1, false, [](const bytes &d) { return B(ref::hex_enc(d, true)); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = false; fingera_to_hex(i, n, (char *)o, 1); return 0; }},
    {"from_hex", 1, 2, true, [](const bytes &d) { return B(ref::hex_enc(d, false)); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = true; return fingera_from_hex((const char *)i, n, o); }},
    {"to_base32", 8, 5, false, [](const bytes &d) { return B(ref::b32_enc(d)); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = false; fingera_to_base32(i, n, (char *)o); return 0; }},
    {"to_base32_raw", 8, 5, false, [](const bytes &d) { return ref::b32_raw_enc(d); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = true; return fingera_to_base32_raw(i, n, o); }},
    {"from_base32", 5, 8, true, [](const bytes &d) { return B(ref::b32_enc(d)); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = true; return fingera_from_base32((const char *)i, n, o); }},
    {"from_base32_raw", 5, 8, true, [](const bytes &d) { return ref::b32_raw_enc(d); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = true; return fingera_from_base32_raw(i, n, o); }},
    {"to_base64", 4, 3, false, [](const bytes &d) { return B(ref::b64_enc(d, false)); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = false; fingera_to_base64(i, n, (char *)o); return 0; }},
    {"to_base64_urlsafe", 4, 3, false, [](const bytes &d) { return B(ref::b64_enc(d, true)); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = false; fingera_to_base64_urlsafe(i, n, (char *)o); return 0; }},
    {"from_base64", 3, 4, true, [](const bytes &d) { return B(ref::b64_enc(d, false)); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = true; return fingera_from_base64((const char *)i, n, o); }},
    {"from_base64_urlsafe", 3, 4, true, [](const bytes &d) { return B(ref::b64_enc(d, true)); }, [](const uint8_t *i, size_t n, uint8_t *o, bool &c) -> size_t { c = true; return fingera_from_base64_urlsafe((const char *)i, n, o); }},
};
const size_t UNIT = 60 * 4096 * 16;  // divisible by every group size and the page size

void say(const char *op, size_t want, size_t got, const char *what) {
  violation(std::string(op) + ":value", std::string(what) + ": returned " + std::to_string(got) + ", want " + std::to_string(want));
}

void codecs(uint64_t bulk_plain, const char *sec, bool hurt) {  // hurt: damage near the end
  section(sec, sizeof CODECS / sizeof *CODECS, [&](Rng &r, uint64_t i) {
    const Codec &c = CODECS[i];
    if (hurt && !c.decoder) return;
    size_t periods = bulk_plain / UNIT + 1;  // of plain bytes
    bytes plain = noise(UNIT, 0x9e3779b97f4a7c15ull), end = noise(40 + r.below(17), 77 + i);
    bytes text = c.enc(plain), ttail = c.enc(end);
    size_t damage = 0;
    if (hurt) { damage = ttail.size() / 2; ttail[damage] = '*'; }
    const bytes &ip = c.decoder ? text : plain, &it = c.decoder ? ttail : end;
    const bytes &op = c.decoder ? plain : text, &ot = c.decoder ? end : ttail;
    Alias in(ip.size(), ip.size() * periods + it.size());
    memcpy(in.window, ip.data(), ip.size());
    memcpy(in.tail(), it.data(), it.size());
    Alias out(op.size(), op.size() * periods + ot.size());
    memset(out.window, 0xEE, out.period);
    memset(out.tail(), 0xEE, ot.size() + 64);
    set_case(sec, i, std::string(c.name) + " of " + std::to_string(in.total) + " bytes" + (hurt ? ", illegal symbol near the end" : ""));
    bool has;
    size_t n = c.call(in.base, in.total, out.base, has);
    stats.evaluations++;
    stats.nontrivial(fnvs(c.name) + in.total);
    stats.add("inputs_over_2GiB");
    size_t want = out.total, keep = ot.size();
    if (hurt) {
      Case k;
      k.op = op_by_name(c.name);
      k.b = {ttail};
      std::string w = ref_case(k);
      keep = 0;
      size_t at = w.find("ret=");
      if (at != std::string::npos) keep = (size_t)atoll(w.c_str() + at + 4);
      want = op.size() * periods + keep;
    }
    if (has && n != want) say(c.name, want, n, "count of a very long input");
    if (memcmp(out.window, op.data(), op.size()) != 0) violation(std::string(c.name) + ":value", "the body of a very long input came out wrong or not at all");
    if (memcmp(out.tail(), ot.data(), keep) != 0) violation(std::string(c.name) + ":value", "the end of a very long input came out wrong or not at all: " + hexs(out.tail(), ot.size() + 8));
    for (size_t k = ot.size(); k < ot.size() + 64; k++) if (out.tail()[k] != 0xEE) { violation(std::string(c.name) + ":memory", "bytes written past the result of a very long input"); break; }
  });
}

void base58(uint64_t bulk, const char *sec) {
  section(sec, 5, [&](Rng &, uint64_t i) {
    bytes end = noise(21 + i, 5 + i);
    end[0] |= 1;
    std::string text = ref::b58_enc(end);
    size_t periods = bulk / UNIT + 1, far = periods * UNIT;
    Alias in(UNIT, far + 4000);
    uint8_t *keep = nullptr;
    stats.evaluations++;
    stats.nontrivial(i * 977 + 5);
    stats.add("inputs_over_2GiB");
    if (i == 0 || i == 1) {  // leading zeros
      Alias out(UNIT, far + 4000);
      memset(in.window, i ? '1' : 0, UNIT);
      memset(out.window, 0xEE, UNIT);
      memset(out.tail(), 0xEE, 300);
      bytes src = i ? B(text) : end, dst = i ? end : B(text);
      memcpy(in.tail(), src.data(), src.size());
      set_case(sec, i, std::string(i ? "from" : "to") + "_base58 of " + std::to_string(far) + " leading zeros");
      size_t n = i ? fingera_from_base58((char *)in.base, far + src.size(), out.base) : fingera_to_base58(in.base, far + src.size(), (char *)out.base);
      const char *nm = i ? "from_base58" : "to_base58";
      if (n != far + dst.size()) say(nm, far + dst.size(), n, "very long input of leading zeros");
      for (size_t k = 0; k < UNIT; k++) if (out.window[k] != (i ? 0 : '1')) { violation(std::string(nm) + ":value", "leading zeros of a very long input lost"); break; }
      if (memcmp(out.tail(), dst.data(), dst.size()) != 0) violation(std::string(nm) + ":value", "the end of a very long input came out wrong");
    } else {  // white space before or behind, or an illegal character behind it
      uint8_t out[200];
      memset(in.window, ' ', UNIT);
      memset(in.tail(), ' ', 300);
      keep = in.tail();
      size_t n, want;
      if (i == 2) {
        memcpy(keep, text.data(), text.size());
        set_case(sec, i, "from_base58 of text behind " + std::to_string(far) + " spaces");
        n = fingera_from_base58((char *)in.base, far + text.size(), out);
        want = end.size();
      } else {
        // the text sits at the very start, in private pages of its own
        uint8_t *b = in.base;
        if (mmap(b, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(2);
        memset(b, ' ', 4096);
        // short text only: the scratch buffer grows with the whole length
        memcpy(b, text.data(), text.size());
        if (i == 4) keep[10] = '!';
        set_case(sec, i, "from_base58 of text before " + std::to_string(far) + " spaces" + (i == 4 ? " and an illegal character" : ""));
        n = fingera_from_base58((char *)b, far + 20, out);
        want = i == 4 ? 0 : end.size();
      }
      if (n != want) say("from_base58", want, n, "text and white space of a very long string");
      else if (n && memcmp(out, end.data(), n) != 0) violation("from_base58:value", "wrong bytes from a very long string");
    }
  });
}

void d64(size_t blocks, const char *sec) {
  section(sec, 1, [&](Rng &, uint64_t i) {
    size_t per = 64 * 4096;  // blocks come in runs of 4096
    size_t periods = blocks / 4096;
    Alias in(per, per * periods + 64 * 3), out(per / 2, per / 2 * periods + 32 * 3);
    bytes d = noise(per, 3), e = noise(64 * 3, 4);
    memcpy(in.window, d.data(), per);
    memcpy(in.tail(), e.data(), e.size());
    memset(out.window, 0xEE, out.period);
    memset(out.tail(), 0xEE, 200);
    set_case(sec, i, "hash256_d64 of " + std::to_string(periods * 4096 + 3) + " blocks");
    fingera_btc_hash256_d64(out.base, in.base, periods * 4096 + 3);
    stats.evaluations++;
    stats.nontrivial(periods);
    stats.add("very_long_block_runs");
    bool bad = false;
    for (size_t k = 0; k < 4096; k++) {
      bytes w = ref::hash256(bytes(d.begin() + 64 * k, d.begin() + 64 * k + 64));
      bad |= memcmp(out.window + 32 * k, w.data(), 32) != 0;
    }
    for (size_t k = 0; k < 3; k++) {
      bytes w = ref::hash256(bytes(e.begin() + 64 * k, e.begin() + 64 * k + 64));
      bad |= memcmp(out.tail() + 32 * k, w.data(), 32) != 0;
    }
    for (size_t k = 96; k < 200; k++) bad |= out.tail()[k] != 0xEE;
    if (bad) violation("hash256_d64:value", "a very long run of blocks came out wrong");
  });
}

// A text of more than 4 GiB: `head`, then as many `fill` bytes as it takes, and
// `last` as its last byte.
struct Long {
  Alias a;
  size_t n;
  Long(const bytes &head, uint8_t fill, size_t total, int last = -1) : a(UNIT, total), n(total) {
    memset(a.window, fill, a.period);
    memset(a.tail(), fill, total - a.bulk + 1);
    size_t k = (head.size() + 4095) / 4096 * 4096;
    if (k) {  // pages of its own
      if (mmap(a.base, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(2);
      memset(a.base, fill, k);
      memcpy(a.base, head.data(), head.size());
    }
    if (last >= 0) a.base[total - 1] = (uint8_t)last;
  }
  uint8_t *p() { return a.base; }
};
const size_t G4 = (size_t)1 << 32;

void parsers(const std::string &prop, const char *sec) {
  auto begin = [&](uint64_t i, const std::string &what) {
    set_case(sec, i, what);
    stats.evaluations++;
    stats.nontrivial(fnvs(what));
    stats.add("inputs_over_2GiB");
  };
  auto num = [](size_t n) { return std::to_string(n); };
  // ... and some that are negative as an int (added to 2^32, the difference wraps)
  const size_t H = G4 / 2 - G4;
  const size_t EXTRA[] = {0, 1, 2, 5, 32, 33, 65, 72, 300, G4, G4 + 33, G4 + 65, H, H + 1, H + 33, H + 3 * (G4 / 8)};
  const size_t NE = sizeof EXTRA / sizeof *EXTRA;
  if (prop == "C10") section(sec, NE * 6, [&](Rng &r, uint64_t i) {
    size_t n = G4 + EXTRA[i % NE];
    bool none = i / NE == 5;
    uint64_t v = i / NE == 0 ? ~0ull : r.u64() >> r.below(64);
    bytes h = none ? bytes() : ref::varint_enc(v);
    static const uint8_t fill[] = {0, 0x80, 0xff, 0x7f, 1};
    Long t(h, none ? 0x80 : fill[i / NE], n);
    begin(i, "decode_varint of " + hexs(h) + " with " + num(n) + " bytes readable");
    uint64_t o = 0;
    size_t k = fingera_decode_varint(t.p(), n, &o);
    if (k != h.size() || (k && o != v)) say("decode_varint", h.size(), k, "buffer of more than 4 GiB");
    int64_t z = 0, want = v & 1 ? (v == 1 ? INT64_MIN : -(int64_t)(v >> 1)) : (int64_t)(v >> 1);
    k = fingera_decode_zigzag(t.p(), n, &z);
    if (k != h.size() || (k && z != want)) say("decode_zigzag", h.size(), k, "buffer of more than 4 GiB");
  });
  if (prop == "C17") section(sec, NE * 3 + 12, [&](Rng &r, uint64_t i) {
    bytes rs = cat2(gen_key(r), gen_key(r)), d = ref::sig_der(rs), sig(64), got(64);
    secp256k1_ecdsa_signature s;
    bool want = true;
    size_t n = G4 + EXTRA[i % NE];
    std::string what = "signature and garbage";
    int fill = 0x55;
    if (i >= NE * 3) {  // integers of 16 MiB and more: the parser knows lengths of three octets
      what = "integers with lengths of three and four octets";
      size_t k = (i - NE * 3) % 6, rl = k == 0 ? 0xffffff : k == 1 ? 0x1000000 : k == 2 ? 0x1000001 : k == 3 ? 0xfffffe : k == 4 ? 0x1010101 : 0xabcdef;
      bool in_s = i - NE * 3 >= 6;
      bytes h = {0x30, 0x84, 1, 2, 3, 4};
      if (in_s) { h.push_back(2); h.push_back(32); h.insert(h.end(), rs.begin(), rs.begin() + 32); }
      h.push_back(2);
      bool pad = r.chance(1, 2);
      h.push_back((uint8_t)((rl >> 24 ? 0x84 : 0x83) + pad));
      if (pad) h.push_back(0);
      if (rl >> 24) h.push_back((uint8_t)(rl >> 24));
      h.push_back((uint8_t)(rl >> 16)); h.push_back((uint8_t)(rl >> 8)); h.push_back((uint8_t)rl);
      size_t at = h.size();
      h.resize(at + rl, 0);
      memcpy(&h[at + rl - 32], &rs[in_s ? 32 : 0], 32);
      if (!in_s) { h.push_back(2); h.push_back(32); h.insert(h.end(), rs.begin() + 32, rs.end()); }
      d = h;
      n = d.size();
      want = rl < 0x1000000;
    }
    begin(i, what + ", " + num(n) + " bytes: " + hexs(d.data(), d.size() < 80 ? d.size() : 80));
    int ok;
    if (n > d.size()) { Long t(d, (uint8_t)fill, n); ok = fingera_btc_signature_decode(t.p(), n, sig.data()); }
    else ok = fingera_btc_signature_decode(d.data(), n, sig.data());
    if ((ok != 0) != want) { say("signature_decode", want, ok, what.c_str()); return; }
    if (!ok) return;
    memcpy(&s, sig.data(), 64);
    secp256k1_ecdsa_signature_serialize_compact(secp256k1_context_static, got.data(), &s);
    if (got != rs) violation("signature_decode:value", "very long input: other r and s");
  });
  if (prop == "C15") section(sec, NE * 4, [&](Rng &r, uint64_t i) {
    size_t n = G4 + EXTRA[i % NE];
    bytes k = gen_key(r), o(64), d;
    switch (i / NE) {
      case 0: case 1: {
        bool c = i / NE;
        d = ref::pub_of(k, c);
        Long t(d, 0, n);
        begin(i, "public key " + hexs(d) + " given as " + num(n) + " bytes");
        if (fingera_btc_pubkey_decode(t.p(), n, o.data())) say("pubkey_decode", 0, 1, "a length of more than 4 GiB");
        return;
      }
      default: {
        d = ref::key_der(k, i / NE == 3);
        Long t(d, 0x55, n);
        begin(i, "private key " + hexs(d) + " and garbage, " + num(n) + " bytes");
        bytes g(32);
        int ok = fingera_btc_key_decode(t.p(), n, g.data());
        if (!ok || g != k) say("key_decode", 1, ok, "a structure followed by more than 4 GiB");
        return;
      }
    }
  });
  if (prop == "C08") section(sec, 14, [&](Rng &r, uint64_t i) {
    bytes data(r.below(60));
    for (auto &x : data) x = (uint8_t)r.below(32);
    std::string t = ref::bech_enc("bc", data);
    char hrp[100];
    uint8_t out[200];
    if (i < 8) {  // room for the prefix counted in more than 32 bits
      size_t room = i < 4 ? G4 + i : (i - 3) << 33;
      size_t hs = room;
      begin(i, "bech32_decode of " + t + " with room for " + num(room) + " characters of prefix");
      int n = fingera_bech32_decode(t.data(), t.size(), hrp, &hs, out);
      if (n != (int)data.size() || hs != 2 || memcmp(out, data.data(), data.size())) say("bech32_decode", data.size(), (size_t)n, "room of more than 4 GiB");
      return;
    }
    size_t n = (i < 12 ? G4 : G4 / 2) + t.size() + (i & 1 ? 6 : 0), hs = 83;
    Long l(B(t), 'q', n);
    begin(i, "bech32_decode of " + t + "qqq..., " + num(n) + " characters");
    // what follows 2^32 characters on may be anything legal
    int k = fingera_bech32_decode((char *)l.p(), n, hrp, &hs, out);
    if (k >= 0) say("bech32_decode", 0, (size_t)k, "a text of more than 4 GiB was accepted");
  });
  auto spaced = [&](Rng &, uint64_t i, const char *op, const std::string &text, const std::function<bool(const char *, size_t, bool)> &f) {
    // before: text behind white space; after: white space behind it, then something that does not belong
    bool before = i & 1;
    size_t n = (i & 2 ? G4 / 2 : G4) + (before ? 4096 : 0) + text.size();
    Long l(before ? bytes() : B(text), ' ', n, before ? -1 : '!');
    if (before) memcpy(l.p() + n - text.size(), text.data(), text.size());
    begin(i, std::string(op) + " of " + text + (before ? " behind" : " before") + " more than 4 GiB of white space" + (before ? "" : " and an illegal character"));
    if (!f((char *)l.p(), n, before)) violation(std::string(op) + ":value", "a text of more than 4 GiB");
  };
  if (prop == "C14") section(sec, 4, [&](Rng &r, uint64_t i) {
    ref::Params p = ref::builtin((int)r.below(3));
    bytes k = gen_key(r);
    spaced(r, i, "key_from_string", ref::wif(k, true, p), [&](const char *t, size_t n, bool good) {
      chain_parameters cp = g_mainnet_chain_parameters;
      cp.prefix_secret_key = (const char *)p.sk.data(); cp.prefix_secret_key_size = (unsigned)p.sk.size();
      uint8_t o[32]; int c = 0;
      int ok = fingera_btc_key_from_string(t, n, o, &c, &cp);
      return good ? ok && c && !memcmp(o, k.data(), 32) : !ok;
    });
  });
  if (prop == "C19") section(sec, 4, [&](Rng &r, uint64_t i) {
    fingera_ex_key k, g;
    memset(&k, 0, sizeof k);
    bytes kk = gen_key(r), cc = rnd2(r, 32);
    memcpy(k.key, kk.data(), 32); memcpy(k.ext.chain_code, cc.data(), 32);
    k.ext.depth = 3; k.ext.child = 77; k.ext.fingerprint = 0x01020304;
    char s[200];
    size_t sn = fingera_exkey_to_string(&k, s, &g_mainnet_chain_parameters);
    spaced(r, i, "exkey_from_string", std::string(s, sn), [&](const char *t, size_t n, bool good) {
      int ok = fingera_exkey_from_string(t, n, &g, &g_mainnet_chain_parameters);
      return good ? ok && !memcmp(g.key, k.key, 32) && !memcmp(g.ext.chain_code, k.ext.chain_code, 32) && g.ext.depth == 3 && g.ext.child == 77 : !ok;
    });
  });
  if (prop == "C09") section(sec, 2 + 5 * 8, [&](Rng &r, uint64_t i) {
    const chain_parameters *cp = &g_mainnet_chain_parameters;
    ref::Params p = ref::builtin(0);
    bytes id = rnd2(r, 20);
    if (i < 2) {
      std::string t = ref::b58c_enc(p.pk, id);
      spaced(r, i, "address_decode", t, [&](const char *s, size_t n, bool good) {
        uint8_t o[64]; size_t os = sizeof o;
        int k = fingera_btc_address_decode(s, n, o, &os, cp);
        return good ? k == BTC_PUBKEY_ADDRESS && os == 20 && !memcmp(o, id.data(), 20) : k == BTC_BAD_ADDRESS;
      });
      return;
    }
    // room counted in more than 32 bits
    i -= 2;
    static const size_t add[] = {0, 1, 5, 19, G4 / 2 - G4, 41, G4, ~(size_t)0 - 2 * G4 + 1};
    size_t room = G4 + add[i % 8];
    if (i % 8 == 7) room = ~(size_t)0 >> 1;
    char s[200];
    bytes prog = i / 8 == 2 ? rnd2(r, 20) : rnd2(r, 32), vp = cat2(bytes{5}, prog);
    size_t n = 0;
    std::string want;
    bytes &hash = i / 8 < 2 ? id : i / 8 < 4 ? prog : vp;
    int type = 0;
    begin(i + 2, "address kind " + num(i / 8) + " of " + hexs(hash) + " with room for " + num(room));
    switch (i / 8) {
      case 0: n = fingera_to_address_pubkey(id.data(), 20, s, room, cp); want = ref::b58c_enc(p.pk, id); type = BTC_PUBKEY_ADDRESS; break;
      case 1: n = fingera_to_address_script(id.data(), 20, s, room, cp); want = ref::b58c_enc(p.sc, id); type = BTC_SCRIPT_ADDRESS; break;
      case 2: n = fingera_to_address_witnessv0_keyhash(prog.data(), 20, s, room, cp); want = ref::addr_segwit(0, prog, p); type = BTC_WITNESSV0_KEYHASH_ADDRESS; break;
      case 3: n = fingera_to_address_witnessv0_scripthash(prog.data(), 32, s, room, cp); want = ref::addr_segwit(0, prog, p); type = BTC_WITNESSV0_SCRIPTHASH_ADDRESS; break;
      default: n = fingera_to_address_witness_unknown(vp.data(), vp.size(), s, room, cp); want = ref::addr_segwit(5, prog, p); type = BTC_WITNESS_UNKNOWN_ADDRESS; break;
    }
    if (std::string(s, n > 200 ? 0 : n) != want) say("address", want.size(), n, "room of more than 4 GiB");
    uint8_t o[64];
    size_t os = room;
    int k = fingera_btc_address_decode(want.data(), want.size(), o, &os, cp);
    if (k != type || os != hash.size() || memcmp(o, hash.data(), os)) say("address_decode", hash.size(), os, "room of more than 4 GiB");
  });
}

// digests of keys, messages and seeds of more than 4 GiB
void hashes(const std::string &prop, const char *sec) {
  auto sha = [](const EVP_MD *md, const uint8_t *p, size_t n) { bytes o(64); unsigned k = 0; EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, md, 0); while (n) { size_t z = n < UNIT ? n : UNIT; EVP_DigestUpdate(c, p, z); p += z; n -= z; } EVP_DigestFinal_ex(c, o.data(), &k); EVP_MD_CTX_free(c); o.resize(k); return o; };
  auto mac = [&](bool big, const uint8_t *kp, size_t kn, const uint8_t *mp, size_t mn) {
    const EVP_MD *md = big ? EVP_sha512() : EVP_sha256();
    size_t bs = big ? 128 : 64;
    bytes k = kn > bs ? sha(md, kp, kn) : bytes(kp, kp + kn), ip, op;
    k.resize(bs, 0);
    for (auto x : k) { ip.push_back(x ^ 0x36); op.push_back(x ^ 0x5c); }
    bytes o(64);
    unsigned z = 0;
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    EVP_DigestInit_ex(c, md, 0);
    EVP_DigestUpdate(c, ip.data(), bs);
    while (mn) { size_t t = mn < UNIT ? mn : UNIT; EVP_DigestUpdate(c, mp, t); mp += t; mn -= t; }
    EVP_DigestFinal_ex(c, o.data(), &z);
    EVP_MD_CTX_free(c);
    o.resize(z);
    return sha(md, cat2(op, o).data(), bs + z);
  };
  const size_t half = prop == "C12" ? 4 : prop == "C13" ? 2 : 1;
  section(sec, 2 * half, [&](Rng &r, uint64_t i) {
    // the second half: lengths that are negative as an int
    size_t n = (i < half ? G4 : G4 / 2) + 16 + r.below(80);
    Long l(rnd2(r, 100), 0, n, 0x99);
    bytes z = noise(UNIT, 1 + r.u64());
    memcpy(l.a.window, z.data(), UNIT);
    bytes small = rnd2(r, 20), got(64), want;
    std::string nm = prop == "C12" ? (i & 1 ? "hmac_sha512" : "hmac_sha256") : prop == "C13" ? (i & 1 ? "hash256" : "hash160") : "exkey_init";
    set_case(sec, i, nm + (prop == "C12" ? (i & 2 ? " with a key of " : " with a message of ") : " of ") + std::to_string(n) + " bytes");
    stats.evaluations++;
    stats.nontrivial(n ^ fnvs(nm) ^ i);
    stats.add("inputs_over_2GiB");
    if (prop == "C12") {
      auto f = i & 1 ? fingera_hmac_sha512 : fingera_hmac_sha256;
      if (i & 2) { f(l.p(), n, small.data(), small.size(), got.data()); want = mac(i & 1, l.p(), n, small.data(), small.size()); }
      else { f(small.data(), small.size(), l.p(), n, got.data()); want = mac(i & 1, small.data(), small.size(), l.p(), n); }
    } else if (prop == "C13") {
      bytes h = sha(EVP_sha256(), l.p(), n);
      if (i & 1) { fingera_btc_hash256(l.p(), n, got.data()); want = ref::sha256(h); }
      else { fingera_btc_hash160(l.p(), n, got.data()); want = ref::rmd160(h); }
    } else {
      fingera_ex_key k;
      fingera_exkey_init(&k, l.p(), n);
      memcpy(got.data(), k.key, 32);
      memcpy(got.data() + 32, k.ext.chain_code, 32);
      want = mac(true, (const uint8_t *)"Bitcoin seed", 12, l.p(), n);
    }
    got.resize(want.size());
    if (got != want) violation(nm + ":value", "an input of more than 4 GiB came out wrong");
  });
}
}  // namespace

void giant(const std::string &prop) {
  const uint64_t over = (4ull << 30) + 4096;
  if (prop == "C04" || prop == "C05") codecs(over, "giant.codecs", prop == "C05");
  if (prop == "C06") base58(over, "giant.base58");
  if (prop == "C13") d64(((size_t)2 << 30) / 64 + 5000, "giant.d64");
  parsers(prop, "giant.parsers");
  if (prop == "C12" || prop == "C13" || prop == "C18") hashes(prop, "giant.hashes");
}
