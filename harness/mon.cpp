// The monitor of the value properties (C04..C19) and of the cross-cutting
// memory, context, capacity and build properties (C01, C02, C03, C24).
#include "ops.hpp"

#include <malloc.h>
#include <sys/syscall.h>

extern "C" {
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
}
#include <secp256k1.h>

// ------------------------------------------------------ interposed tweaks ----
// BIP32 children whose tweak is out of range, or that would be zero, cannot be
// reached by searching for a hash.  These definitions stand before those of
// libsecp256k1 and can hand it another tweak than the library computed.
#include <dlfcn.h>
static uint64_t tweaks_forced;
#define TWEAK(name, type)                                                                                   \
  extern "C" int secp256k1_##name(const secp256k1_context *c, type *k, const unsigned char *t) {            \
    typedef int (*F)(const secp256k1_context *, type *, const unsigned char *);                             \
    static F real = (F)dlsym(RTLD_NEXT, "secp256k1_" #name);                                                \
    if (!ref::forced_tweak.empty()) { t = ref::forced_tweak.data(); __atomic_add_fetch(&tweaks_forced, 1, __ATOMIC_RELAXED); } \
    return real(c, k, t);                                                                                   \
  }
TWEAK(ec_privkey_tweak_add, unsigned char)
TWEAK(ec_seckey_tweak_add, unsigned char)
TWEAK(ec_pubkey_tweak_add, secp256k1_pubkey)

extern "C" {   // lenunit.c
size_t c_fingera_to_hex_length(size_t), c_fingera_from_hex_length(size_t), c_fingera_to_base32_length(size_t), c_fingera_to_base64_length(size_t), c_fingera_to_base64_urlsafe_length(size_t),
    c_fingera_from_base64_urlsafe_length(size_t), c_fingera_to_base58_length(size_t), c_fingera_from_base58_length(size_t), c_fingera_to_base58_check_length(size_t, size_t),
    c_fingera_from_base58_check_length(size_t), c_fingera_bech32_encode_length(size_t, size_t), c_fingera_key_string_max_length(void), c_fingera_exkey_string_max_length(void),
    c_fingera_from_base64_length(const char *, size_t);
}
static bool ndebug_build, sanitized;
static Mem M;

static uint64_t scaled(uint64_t n) {
  uint64_t k = n * opt.scale / 100;
  return k ? k : 1;
}
static bool quick() { return opt.tier != "thorough"; }

static void dirty(Rng &r) {
  static const uint8_t pat[] = {0, 0xff, 0xcc, 0x31, 0x80, 0x01};
  dirty_stack(pat[r.below(sizeof pat)], r.chance(1, 8) ? r.u64() | 1 : 0);
}

static bool refused(const std::string &a) { return a.find("ok=0 ") == 0 || a == "bad" || a.find("ret=0 ") == 0 || a.find("type=0 ") == 0; }

static void outcome(const Op *op, const std::string &want) {
  std::string k = "ref:";
  k += op->name;
  stats.add(k + (refused(want) ? ":refused" : ":answered"));
}

// What a property says about an answer.  C01 is about memory and crashes only,
// C03 about sizes and bounds; the value properties compare everything.
static enum { VALUES, MEMORY, SIZES } policy = VALUES;

// An answer with its contents blanked out: what was returned, and how long.
static std::string shape(const std::string &s) {
  std::string o;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find(' ', i);
    if (e == std::string::npos) e = s.size();
    size_t q = s.find('=', i);
    if (q != std::string::npos && q < e) {
      std::string k = s.substr(i, q - i);
      if (k == "ret" || k == "len" || k == "ok" || k == "cap") o += s.substr(i, e - i);
      else if (k != "v" && k != "type" && k != "fp" && k != "depth" && k != "compressed") o += k + "#" + std::to_string(e - q - 1);
    }
    else o += s.substr(i, e - i);
    o += ' ';
    i = e + 1;
  }
  return o;
}
static bool blames(const Case &c, const std::string &got, const std::string &want) {
  if (policy == VALUES || got.find(" MEMORY: ") != std::string::npos) return true;
  if (policy != SIZES) return false;
  // accepting or refusing is another property's matter where no capacity decides it
  bool cap = !strncmp(c.op->name, "address", 7);
  if (!cap && c.op->decoder && refused(got) != refused(want)) return false;
  return shape(got) != shape(want);
}

// One case: remember it, run it in a random context, compare with the reference.
static bool judge(const Case &c, const char *sec, uint64_t i, const MemMode &mode) {
  set_case(sec, i, c.text());
  std::string want = ref_case(c);
  std::string got = run_case(c, M, mode);
  stats.evaluations++;
  stats.nontrivial(c.hash());
  stats.add(std::string("op:") + c.op->name);
  outcome(c.op, want);
  if (got == want) return true;
  if (!blames(c, got, want)) {
    stats.add("answers_wrong_in_other_ways");
    return true;
  }
  size_t k = 0;
  while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
  bool mem = got.find(" MEMORY: ") != std::string::npos;
  violation(std::string(c.op->name) + (mem ? ":memory" : ":value"),
            "got " + shorten(got, 700) + " | want " + shorten(want, 700) + " | first difference at character " + std::to_string(k));
  return false;
}

static bool runnable(const Op *op) { return !op->needs_ndebug || ndebug_build; }

static Case mk(const char *op, std::vector<bytes> b, std::vector<uint64_t> n = {}) {
  Case c;
  c.op = op_by_name(op);
  c.b = std::move(b);
  c.n = std::move(n);
  return c;
}

// A case that differs from another in one place only: one bit of one input, one
// scalar argument, or the network.  False when this operation offers none.
static bool neighbour_of(Rng &r, const Case &c, Case &d) {
  const std::string name = c.op->name;
  d = c;
  Case fresh;
  fresh.op = c.op;
  c.op->gen(r, fresh);
  bool has_params = name.find("address") == 0 || name.find("string") != std::string::npos;
  if (has_params && r.chance(1, 3)) { d.p = fresh.p; return true; }
  if (!c.n.empty() && r.chance(1, 4) && fresh.n.size() == c.n.size() && name != "key_encode" && name != "pubkey_encode") {
    size_t k = r.below(c.n.size());
    d.n[k] = fresh.n[k];
    return d.n[k] != c.n[k];
  }
  if (c.b.empty()) return false;
  size_t k = r.below(c.b.size());
  bytes &x = d.b[k];
  if (x.empty()) return false;
  if ((name == "verify" && k != 1) || ((name.find("pubkey_encode") == 0 || name == "pubkey_keyid" || name == "signature_encode") && k == 0)) {
    if (fresh.b.size() != c.b.size()) return false;
    x = fresh.b[k];
    return true;
  }
  if (name == "pubkey_fingerprint") { x[0] ^= 1; return true; }
  if (name == "bech32_encode") {
    if (k == 0) return false;
    x[r.below(x.size())] ^= (uint8_t)(1u << r.below(5));
    return true;
  }
  size_t at = r.chance(1, 3) ? x.size() - 1 - r.below(std::min<size_t>(x.size(), 4)) : r.below(x.size());
  x[at] ^= (uint8_t)(1u << r.below(8));
  bool key = k == 0 && x.size() == 32 && (name.find("key_") == 0 || name.find("exkey_") == 0 || name == "sign");
  if (key && !ref::key_valid(x)) return false;
  return !c.op->unspecified_in(d);
}

// An answer must not depend on what was asked before: near-identical questions
// one after the other, in the same place in memory.
static void run_near(const Op *op, uint64_t cnt) {
  std::string sec = std::string("near.") + op->name;
  section(sec, cnt, [&](Rng &r, uint64_t i) {
    Case c, d;
    c.op = op;
    op->gen(r, c);
    if (op->unspecified_in(c)) return;
    MemMode mode = random_mode(r);
    mode.right = true;
    bool once = false;
    for (int k = 0; k < 3; k++) {
      if (!neighbour_of(r, c, d)) continue;
      if (!once && !judge(c, sec.c_str(), i, mode)) return;
      once = true;
      stats.add("questions_after_a_near_identical_one");
      if (!judge(d, sec.c_str(), i, mode)) return;
      if (r.chance(1, 2)) c = d;
    }
    if (once) judge(c, sec.c_str(), i, mode);
  });
}

// The same operation more than 65536 times in one process: a counter it keeps
// would show.  The first of three short questions is asked again and again.
static void run_many(const Op *op) {
  if (!ndebug_build || sanitized) return;
  const char *n = op->name;
  std::string sec = std::string("many.") + n;
  section(sec, 64, [&](Rng &r, uint64_t i) {
    if (i != fnvs(n) % 8) return;
    Case c[3];
    std::string want[3];
    for (int k = 0; k < 3; k++)
      for (int z = 0; z < 400; z++) {
        c[k] = Case();
        c[k].op = op;
        op->gen(r, c[k]);
        want[k] = ref_case(c[k]);
        if (c[k].size() < 200 && !op->unspecified_in(c[k]) && (k == 2 || z > 300 || !refused(want[k]))) break;
      }
    uint64_t total = opt.tier == "thorough" ? 300000 : 66000;
    for (uint64_t z = 0; z < total; z++) {
      int k = z % 64 == 63 ? 1 + (int)(z / 64 % 2) : 0;
      if (z % 1024 == 0) set_case(sec.c_str(), i, "call number " + std::to_string(z) + " and on: " + c[k].text());
      MemMode m;
      m.right = z & 1;
      std::string got = run_case(c[k], M, m);
      stats.evaluations++;
      if (got == want[k] || !blames(c[k], got, want[k])) continue;
      set_case(sec.c_str(), i, "call number " + std::to_string(z) + ": " + c[k].text());
      violation(std::string(n) + ":value", "call number " + std::to_string(z) + ": got " + shorten(got, 500) + " | want " + shorten(want[k], 500));
      return;
    }
    stats.add("operations_called_" + std::to_string(total) + "_times");
  });
}

// Random cases of every operation of a property.
static void run_ops(const std::string &prop, uint64_t per_op, const std::map<std::string, double> &weight = {}) {
  for (const Op *op : ops_of(prop)) {
    if (!runnable(op)) continue;
    double w = 1;
    auto it = weight.find(op->name);
    if (it != weight.end()) w = it->second;
    uint64_t cnt = scaled((uint64_t)(per_op * w));
    std::string sec = std::string("op.") + op->name;
    section(sec, cnt, [&](Rng &r, uint64_t i) {
      Case c;
      c.op = op;
      op->gen(r, c);
      MemMode mode = random_mode(r);
      if (r.chance(1, 3)) dirty(r);
      if (i < 2) stats.sample(c.text());
      judge(c, sec.c_str(), i, mode);
    });
    run_near(op, cnt / 8 + 20);
    run_many(op);
    if (opt.shard == 0) stats.needs.push_back({std::string("op:") + op->name, 1});
  }
}

// A counted list of work items, distributed over the shards by index.
static void items(const std::string &name, uint64_t n, const std::function<void(Rng &, uint64_t)> &f) { section(name, n, f); }

static MemMode plain_mode(uint64_t i) {
  MemMode m;
  m.right = i & 1;
  m.fill = (i & 2) ? 0xA5 : 0xFF;
  m.neighbour = (int)(i % 3);
  m.skew = (unsigned)(i % 17);
  m.seed = i * 77 + 1;
  m.process = i / 3 % 4 == 1 ? PS_LOCALE : i / 3 % 4 == 3 ? PS_ROUND_DOWN | PS_ERRNO : 0;
  return m;
}

static bytes rnd(Rng &r, size_t n) {
  bytes b(n);
  for (auto &x : b) x = r.byte();
  return b;
}
static bytes cat(const bytes &a, const bytes &b) {
  bytes c = a;
  c.insert(c.end(), b.begin(), b.end());
  return c;
}

// Every position of a text replaced by every byte value.
static void every_byte(const std::string &name, const char *op, uint64_t texts, const std::function<bytes(Rng &, uint64_t)> &make,
                       const std::function<void(Case &)> &finish = nullptr) {
  items(name, texts, [&](Rng &r, uint64_t i) {
    bytes t = make(r, i);
    for (size_t p = 0; p < t.size(); p++) {
      uint8_t keep = t[p];
      for (int v = 0; v < 256; v++) {
        t[p] = (uint8_t)v;
        Case c = mk(op, {t});
        if (finish) finish(c);
        judge(c, name.c_str(), i, plain_mode(p * 256 + v + i));
      }
      t[p] = keep;
    }
    stats.add("every_byte_texts");
  });
}

// ------------------------------------------------------------- properties ----
// Lengths where narrower counters wrap: around powers of two and small multiples.
static size_t wide_len(uint64_t i) {
  size_t k = 8 + i / 7 % 15;
  switch (i % 7) {
    case 0: return ((size_t)1 << k) - 1;
    case 1: return (size_t)1 << k;
    case 2: return ((size_t)1 << k) + 1;
    case 3: return ((size_t)3 << k);
    case 4: return ((size_t)5 << k);
    case 5: return ((size_t)1 << k) + 64;
    default: return ((size_t)1 << k) + ((size_t)1 << (k / 2)) - 1;
  }
}
static const uint64_t WIDE = 7 * 15;

// Calls `f` with its output lying over (part of) an input and compares.
static void over(const char *sec, uint64_t i, const char *op, const std::string &what, const uint8_t *got, const bytes &want, const bytes &area_after = {}, const bytes &area_want = {}) {
  (void)i;
  stats.evaluations++;
  stats.add(std::string("over:") + op);
  stats.nontrivial(fnv(want.data(), want.size(), fnvs(sec)));
  if (memcmp(got, want.data(), want.size()) != 0) violation(std::string(op) + ":over", what + ": got " + shorten(hexs(got, want.size()), 400) + " | want " + shorten(hexs(want), 400));
  if (area_after != area_want) violation(std::string(op) + ":over", what + ": bytes outside the result changed");
}

static void p_c04() {
  run_ops("C04", 3000);
  static const char *enc[] = {"to_hex", "to_base32", "to_base32_raw", "to_base64", "to_base64_urlsafe", "hex_dump"};
  for (const char *e : enc) {
    std::string nm = std::string("short.") + e;
    // every 0-, 1- and 2-byte input
    items(nm, 1 + 256 + 256, [&](Rng &, uint64_t i) {
      std::vector<uint64_t> n;
      if (strstr(e, "hex")) n = {i & 1};
      if (i == 0) { judge(mk(e, {bytes()}, n), nm.c_str(), i, plain_mode(i)); return; }
      if (i <= 256) { judge(mk(e, {bytes{(uint8_t)(i - 1)}}, n), nm.c_str(), i, plain_mode(i)); return; }
      for (int v = 0; v < 256; v++) judge(mk(e, {bytes{(uint8_t)(i - 257), (uint8_t)v}}, n), nm.c_str(), i, plain_mode(i + v));
    });
    std::string nl = std::string("length.") + e;
    items(nl, strcmp(e, "hex_dump") ? 700 : 2600, [&](Rng &r, uint64_t i) {
      std::vector<uint64_t> n;
      if (strstr(e, "hex")) n = {r.below(2)};
      judge(mk(e, {gen_bytes(r, i)}, n), nl.c_str(), i, random_mode(r));
    });
  }
  // every byte value at every place of a group
  items("place", 16 * 256, [&](Rng &r, uint64_t i) {
    bytes d = rnd(r, 16);
    d[i / 256] = (uint8_t)i;
    for (const char *e : enc) {
      std::vector<uint64_t> n;
      if (strstr(e, "hex")) n = {i & 1};
      judge(mk(e, {d}, n), "place", i, plain_mode(i));
    }
  });
  // the library's decoders undo its encoders (through the standard text)
  items("roundtrip", scaled(6000), [&](Rng &r, uint64_t i) {
    bytes d = i < 600 ? rnd(r, i) : gen_bytes(r, gen_len(r, 3000));
    auto back = [&](const char *op, bytes text) {
      if (r.chance(1, 2) && strcmp(op, "from_base64") && strcmp(op, "from_base64_urlsafe") && strcmp(op, "from_base32_raw"))
        for (auto &x : text) if (r.chance(1, 2)) x = (uint8_t)toupper(x);
      Case c = mk(op, {text});
      judge(c, "roundtrip", i, random_mode(r));
      if (ref_case(c).find("out=" + hexs(d) + " ") == std::string::npos) { fprintf(stderr, "reference does not round-trip %s\n", op); _exit(2); }
    };
    back("from_hex", B(ref::hex_enc(d, false)));
    back("from_base32", B(ref::b32_enc(d)));
    back("from_base32_raw", ref::b32_raw_enc(d));
    back("from_base64", B(ref::b64_enc(d, false)));
    back("from_base64_urlsafe", B(ref::b64_enc(d, true)));
    stats.add("roundtrips");
  });
  items("long", scaled(24), [&](Rng &r, uint64_t i) {
    bytes d = rnd(r, 60000 + r.below(80000));
    for (const char *e : enc) judge(mk(e, {d}, strstr(e, "hex") ? std::vector<uint64_t>{0} : std::vector<uint64_t>{}), "long", i, random_mode(r));
    judge(mk("from_hex", {B(ref::hex_enc(d, true))}), "long", i, random_mode(r));
    judge(mk("from_base32", {B(ref::b32_enc(d))}), "long", i, random_mode(r));
    judge(mk("from_base32_raw", {ref::b32_raw_enc(d)}), "long", i, random_mode(r));
    judge(mk("from_base64", {B(ref::b64_enc(d, false))}), "long", i, random_mode(r));
    judge(mk("from_base64_urlsafe", {B(ref::b64_enc(d, true))}), "long", i, random_mode(r));
  });
  items("wide", 36, [&](Rng &r, uint64_t i) {
    static const size_t at[] = {1024, 4096, 32768, 65536};
    bytes d = rnd(r, at[i / 9] + i % 9 - 4);
    for (const char *e : enc) judge(mk(e, {d}, strstr(e, "hex") ? std::vector<uint64_t>{i & 1} : std::vector<uint64_t>{}), "wide", i, random_mode(r));
    auto text = [&](const char *op, bytes t) {  // the text has the odd length
      judge(mk(op, {t}), "wide", i, random_mode(r));
      t.resize(at[i / 9] + i % 9 - 4, 'A');
      judge(mk(op, {t}), "wide", i, random_mode(r));
    };
    text("from_hex", B(ref::hex_enc(d, true)));
    text("from_base32", B(ref::b32_enc(d)));
    bytes raw = ref::b32_raw_enc(d);
    judge(mk("from_base32_raw", {raw}), "wide", i, random_mode(r));
    text("from_base64", B(ref::b64_enc(d, false)));
    text("from_base64_urlsafe", B(ref::b64_enc(d, true)));
  });
  if (opt.shard == 0) stats.needs.push_back({"roundtrips", 1});
}

static void p_c05() {
  run_ops("C05", 8000);
  auto body = [](const char *op, Rng &r, uint64_t i) -> bytes {
    size_t n = i % 28;
    if (!strcmp(op, "from_hex")) return B(ref::hex_enc(rnd(r, n), i & 1));
    if (!strcmp(op, "from_base32")) return B(ref::b32_enc(rnd(r, n)));
    if (!strcmp(op, "from_base32_raw")) return ref::b32_raw_enc(rnd(r, n));
    if (!strcmp(op, "from_base64")) return B(ref::b64_enc(rnd(r, n), false));
    return B(ref::b64_enc(rnd(r, n), true));
  };
  static const char *dec[] = {"from_hex", "from_base32", "from_base32_raw", "from_base64", "from_base64_urlsafe"};
  for (const char *d : dec) {
    bool raw = !strcmp(d, "from_base32_raw");
    uint64_t n = quick() ? 28 : 280;
    std::string nm = std::string("damage.") + d;
    items(nm, n * 8, [&](Rng &, uint64_t j) {
      uint64_t i = j / 8;
      Rng r2(opt.seed, i, 99);
      bytes t = body(d, r2, i);
      for (size_t p = j % 8; p < t.size(); p += 8) {
        uint8_t keep = t[p];
        for (int v = 0; v < 256; v++) {
          if (raw && v == 61) continue;
          t[p] = (uint8_t)v;
          judge(mk(d, {t}), nm.c_str(), j, plain_mode(p * 256 + v));
        }
        t[p] = keep;
      }
    });
    // unpadded, over-padded and cut texts of every length
    std::string nc = std::string("cut.") + d;
    items(nc, 200, [&](Rng &r, uint64_t i) {
      bytes t = body(d, r, 27);
      bytes big = t;
      while (big.size() < 230) big = cat(big, body(d, r, 25));
      if (!raw) for (auto &x : big) if (x == '=') x = 'a';
      big.resize(i);
      judge(mk(d, {big}), nc.c_str(), i, random_mode(r));
      if (raw) return;
      for (int k = 1; k < 12; k++) {
        bytes e = big;
        e.insert(e.end(), (size_t)k, '=');
        judge(mk(d, {e}), nc.c_str(), i, random_mode(r));
        e.insert(e.end(), big.begin(), big.begin() + (big.size() < 9 ? big.size() : 9));
        judge(mk(d, {e}), nc.c_str(), i, random_mode(r));
      }
    });
    // two damages
    std::string n2 = std::string("two.") + d;
    items(n2, scaled(4000), [&](Rng &r, uint64_t i) {
      bytes t = body(d, r, 5 + i % 23);
      for (int k = 0; k < 2; k++) {
        size_t at = r.below(t.size());
        static const uint8_t v[] = {'=', 0, 0xff, 0x80, ' ', '-', '_', '+', '/', '1', '8', 'g', '@', '[', '`', '{'};
        t[at] = r.chance(1, 2) ? v[r.below(sizeof v)] : r.byte();
        if (raw && t[at] == 61) t[at] = 40;
      }
      judge(mk(d, {t}), n2.c_str(), i, random_mode(r));
    });
  }
}

static void p_c06() {
  run_ops("C06", 12000);
  static const char *A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
  items("decode12", 257, [&](Rng &, uint64_t i) {
    if (i == 256) { judge(mk("from_base58", {bytes()}), "decode12", i, plain_mode(i)); judge(mk("to_base58", {bytes()}), "decode12", i, plain_mode(i)); return; }
    judge(mk("from_base58", {bytes{(uint8_t)i}}), "decode12", i, plain_mode(i));
    for (int v = 0; v < 256; v++) {
      judge(mk("from_base58", {bytes{(uint8_t)i, (uint8_t)v}}), "decode12", i, plain_mode(i + v));
      judge(mk("to_base58", {bytes{(uint8_t)i, (uint8_t)v}}), "decode12", i, plain_mode(i + v));
    }
    judge(mk("to_base58", {bytes{(uint8_t)i}}), "decode12", i, plain_mode(i));
  });
  items("zeros", 400, [&](Rng &r, uint64_t i) {  // all-zero and leading-zero forms
    judge(mk("to_base58", {bytes(i, 0)}), "zeros", i, plain_mode(i));
    judge(mk("from_base58", {bytes(i, '1')}), "zeros", i, plain_mode(i));
    for (int k = 0; k < 4; k++) {
      bytes d = cat(bytes(i / 4, 0), rnd(r, r.below(40)));
      judge(mk("to_base58", {d}), "zeros", i, random_mode(r));
      judge(mk("from_base58", {B(ref::b58_enc(d))}), "zeros", i, random_mode(r));
      bytes hi = cat(bytes(i / 8, 0), bytes(i % 64, 0xff));
      judge(mk("to_base58", {hi}), "zeros", i, random_mode(r));
    }
    judge(mk("to_base58", {bytes(i, 0xff)}), "zeros", i, plain_mode(i));
    judge(mk("from_base58", {bytes(i, 'z')}), "zeros", i, plain_mode(i));
  });
  every_byte("damage", "from_base58", scaled(96), [](Rng &r, uint64_t i) { return B(ref::b58_enc(gen_bytes(r, i % 40))); });
  items("space", scaled(6000), [&](Rng &r, uint64_t i) {
    static const char ws[] = " \t\n\v\f\r";
    auto sp = [&]() { bytes b(r.below(5)); for (auto &x : b) x = (uint8_t)ws[r.below(6)]; return b; };
    bytes t = B(ref::b58_enc(gen_bytes(r, r.below(60))));
    bytes s = cat(cat(sp(), t), sp());
    if (r.chance(1, 4)) s.insert(s.begin() + r.below(s.size() + 1), (uint8_t)ws[r.below(6)]);
    if (r.chance(1, 6)) s.insert(s.begin() + r.below(s.size() + 1), r.byte());
    if (r.chance(1, 10)) s = sp();
    judge(mk("from_base58", {s}), "space", i, random_mode(r));
  });
  items("length", 600, [&](Rng &r, uint64_t i) {
    bytes d = gen_bytes(r, i);
    judge(mk("to_base58", {d}), "length", i, random_mode(r));
    judge(mk("from_base58", {B(ref::b58_enc(d))}), "length", i, random_mode(r));
    bytes t(i);
    for (auto &x : t) x = (uint8_t)A[r.below(58)];
    judge(mk("from_base58", {t}), "length", i, random_mode(r));
  });
  // lengths around powers of two, cheap because most of it is leading zeros
  items("wide", 44, [&](Rng &r, uint64_t i) {
    static const size_t at[] = {256, 512, 32768, 65536};
    size_t n = at[i / 11] + i % 11 - 5;
    bytes tail = gen_bytes(r, r.below(60)), d = cat(bytes(n - tail.size(), 0), tail);
    judge(mk("to_base58", {d}), "wide", i, random_mode(r));
    judge(mk("from_base58", {B(ref::b58_enc(d))}), "wide", i, random_mode(r));
    bytes e = B(ref::b58_enc(rnd(r, 30)));
    bytes s = cat(bytes(n - 44, ' '), e), z = cat(e, bytes(n - 44, '\n'));
    judge(mk("from_base58", {s}), "wide", i, random_mode(r));
    judge(mk("from_base58", {z}), "wide", i, random_mode(r));
    z.back() = 'x';
    judge(mk("from_base58", {z}), "wide", i, random_mode(r));
    if (i % 11 == 5 && i / 11 == 2) {  // one really long number each way
      d = bytes(33000, 0xff);
      judge(mk("to_base58", {d}), "wide", i, plain_mode(i));
      judge(mk("from_base58", {B(ref::b58_enc(d))}), "wide", i, plain_mode(i));
    }
  });
  items("long", scaled(24), [&](Rng &r, uint64_t i) {
    bytes d = cat(bytes(r.below(300), 0), rnd(r, 2000 + r.below(2500)));
    judge(mk("to_base58", {d}), "long", i, random_mode(r));
    judge(mk("from_base58", {B(ref::b58_enc(d))}), "long", i, random_mode(r));
  });
  // numbers so long that a size estimate a millionth off shows
  if (!quick() && !sanitized) items("deep", 4, [&](Rng &r, uint64_t i) {
    bytes d = i % 2 ? rnd(r, 150000) : bytes(190000, 0xff);
    judge(mk("to_base58", {d}), "deep", i, plain_mode(i / 2));
    judge(mk("from_base58", {B(ref::b58_enc(d))}), "deep", i, plain_mode(i / 2));
  });
}

static void p_c07() {
  run_ops("C07", 10000);
  // every single-bit damage below the text level
  items("bits", scaled(160), [&](Rng &r, uint64_t i) {
    bytes d = gen_bytes(r, i % 80);
    bytes h = ref::hash256(d), e = cat(d, bytes(h.begin(), h.begin() + 4));
    judge(mk("from_base58_check", {B(ref::b58_enc(e))}), "bits", i, random_mode(r));
    for (size_t b = 0; b < e.size() * 8; b++) {
      bytes x = e;
      x[b / 8] ^= (uint8_t)(1u << (b % 8));
      judge(mk("from_base58_check", {B(ref::b58_enc(x))}), "bits", i, plain_mode(b));
    }
    for (int j = 0; j < 4; j++) for (int k = 0; k < j; k++) {  // two checksum bytes swapped or both damaged
      bytes x = e;
      std::swap(x[d.size() + j], x[d.size() + k]);
      judge(mk("from_base58_check", {B(ref::b58_enc(x))}), "bits", i, plain_mode(j));
      x = e;
      uint8_t v = (uint8_t)(1 + r.below(255));
      x[d.size() + j] ^= v;
      x[d.size() + k] ^= v;
      judge(mk("from_base58_check", {B(ref::b58_enc(x))}), "bits", i, plain_mode(k));
    }
    for (size_t cut = 0; cut < e.size(); cut++) judge(mk("from_base58_check", {B(ref::b58_enc(bytes(e.begin(), e.begin() + cut)))}), "bits", i, plain_mode(cut));
    stats.add("bit_damage_payloads");
  });
  every_byte("damage", "from_base58_check", scaled(48), [](Rng &r, uint64_t i) { return B(ref::b58c_enc({}, gen_bytes(r, i % 40))); });
  // shorter than a checksum
  items("tiny", 258, [&](Rng &, uint64_t i) {
    if (i == 256) judge(mk("from_base58_check", {bytes()}), "tiny", i, plain_mode(i));
    else if (i == 257) for (int k = 0; k < 200; k++) judge(mk("from_base58_check", {bytes((size_t)k, '1')}), "tiny", i, plain_mode(k));
    else for (int v = 0; v < 256; v++) judge(mk("from_base58_check", {B(ref::b58_enc(bytes{(uint8_t)i, (uint8_t)v}))}), "tiny", i, plain_mode(v));
  });
  // checksums of another make
  items("foreign", 130 * ref::B58C_KINDS, [&](Rng &r, uint64_t i) {
    bytes d = i % 2 ? rnd(r, i / ref::B58C_KINDS) : gen_bytes(r, i / ref::B58C_KINDS);
    judge(mk("from_base58_check", {B(ref::b58_enc(ref::b58c_foreign(d, (int)(i % ref::B58C_KINDS))))}), "foreign", i, random_mode(r));
    stats.add("foreign_checksums");
  });
  items("sizes", 40 * 12, [&](Rng &r, uint64_t i) {
    bytes pre = gen_bytes(r, i % 12), d = gen_bytes(r, i / 12 * 5 + r.below(5));
    judge(mk("to_base58_check", {d, pre}), "sizes", i, random_mode(r));
    judge(mk("from_base58_check", {B(ref::b58c_enc(pre, d))}), "sizes", i, random_mode(r));
  });
  items("prefix", 600, [&](Rng &r, uint64_t i) {
    judge(mk("to_base58_check", {rnd(r, r.below(80)), gen_bytes(r, i)}), "prefix", i, random_mode(r));
    judge(mk("to_base58_check", {rnd(r, i % 7), gen_bytes(r, i)}), "prefix", i, plain_mode(i));
  });
  items("length", 400, [&](Rng &r, uint64_t i) {
    bytes d = gen_bytes(r, i);
    judge(mk("to_base58_check", {d, rnd(r, 1)}), "length", i, random_mode(r));
    judge(mk("from_base58_check", {B(ref::b58c_enc({}, d))}), "length", i, random_mode(r));
  });
}

static void p_c08() {
  run_ops("C08", 14000);
  static const char *A = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
  // sizes for texts in which something else is varied: mostly short, some of every size up to 90 characters
  auto shape = [](Rng &r, size_t &hl, size_t &dl, size_t smallh, size_t smalld) {
    if (r.chance(2, 3)) { hl = 1 + r.below(smallh), dl = r.below(smalld); return; }
    size_t total = r.chance(1, 2) ? 90 - r.below(6) : 8 + r.below(83);
    hl = r.chance(1, 2) ? 1 + r.below(4) : 1 + r.below(total - 7);
    if (hl > total - 7) hl = total - 7;
    dl = total - 7 - hl;
  };
  // every byte value at every place, lower and upper case texts
  every_byte("damage", "bech32_decode", scaled(64), [](Rng &r, uint64_t i) {
    std::string h = i % 3 ? "bc" : (i % 2 ? "a1" : "A!");
    for (auto &c : h) c = (char)tolower(c);
    bytes d(i % 50);
    for (auto &x : d) x = r.byte() & 31;
    bytes t = B(ref::bech_enc(h, d));
    if (i & 1) for (auto &x : t) x = (uint8_t)toupper(x);
    return t;
  }, [](Case &c) { c.n = {90}; });
  // whole range of hrp length, data length and capacity
  items("sizes", 92 * 92, [&](Rng &r, uint64_t i) {
    size_t hl = i / 92, dl = i % 92;
    std::string h;
    for (size_t k = 0; k < hl; k++) { char c = (char)r.range(33, 126); if (c >= 'A' && c <= 'Z') c = (char)(c | 32); h += c; }
    bytes d(dl);
    for (auto &x : d) x = r.byte() & 31;
    if (hl) judge(mk("bech32_encode", {B(h), d}), "sizes", i, random_mode(r));
    bytes t = B(ref::bech_enc(h, d));
    for (uint64_t cap : {(uint64_t)hl, (uint64_t)(hl ? hl - 1 : 0), (uint64_t)hl + 1, (uint64_t)0}) judge(mk("bech32_decode", {t}, {cap}), "sizes", i, plain_mode(i + cap));
    stats.add("hrp_data_sizes");
  });
  // case rules
  items("case", scaled(3000), [&](Rng &r, uint64_t i) {
    size_t hl, dl;
    shape(r, hl, dl, 6, 30);
    std::string h(hl, 'a');
    for (auto &c : h) c = (char)(r.chance(1, 3) ? '0' + r.below(10) : 'a' + r.below(26));
    bytes d(dl);
    for (auto &x : d) x = r.byte() & 31;
    bytes t = B(ref::bech_enc(h, d));
    int mode = (int)r.below(5);
    for (size_t k = 0; k < t.size(); k++) {
      bool up = mode == 0 || (mode == 1 && k < h.size()) || (mode == 2 && k > h.size()) || (mode == 3 && r.chance(1, 2));
      if (up) t[k] = (uint8_t)toupper(t[k]);
    }
    if (mode == 4) { size_t k = r.below(t.size()); t[k] = (uint8_t)(t[k] ^ (isalpha(t[k]) ? 0x20 : 0)); }
    judge(mk("bech32_decode", {t}, {hl + r.below(4)}), "case", i, random_mode(r));
  });
  // up to three symbol errors must all be seen (the code detects any four)
  items("errors", scaled(20000), [&](Rng &r, uint64_t i) {
    bytes d(r.below(75));
    for (auto &x : d) x = r.byte() & 31;
    bytes t = B(ref::bech_enc(r.chance(1, 2) ? "bc" : "tb", d));
    for (size_t k = 0, z = r.below(5); k < z; k++) t[3 + r.below(t.size() - 3)] = (uint8_t)A[r.below(32)];
    if (r.chance(1, 20)) std::swap(t[3 + r.below(t.size() - 3)], t[3 + r.below(t.size() - 3)]);
    judge(mk("bech32_decode", {t}, {2 + r.below(3)}), "errors", i, random_mode(r));
  });
  // every byte value at every place of the human-readable part, checksum to match
  items("hrpbyte", 256, [&](Rng &r, uint64_t i) {
    for (int k = 0; k < 9; k++) {
      size_t hl, dl;
      shape(r, hl, dl, 6, 30);
      std::string h(hl, 'a');
      for (auto &c : h) c = (char)(k % 3 == 0 ? r.range('A', 'Z') : k % 3 == 1 ? r.range('0', '9') : r.range('a', 'z'));
      h[r.below(h.size())] = (char)i;
      bytes d(dl);
      for (auto &x : d) x = r.byte() & 31;
      for (int low = 0; low < 2; low++) {
        std::string hl = h;
        for (auto &c : hl) if (low && c >= 'A' && c <= 'Z') c = (char)(c + 32);
        std::string t = ref::bech_enc(hl, d);
        for (size_t p = 0; p < h.size(); p++) t[p] = h[p];
        if (r.chance(1, 3)) for (size_t p = h.size(); p < t.size(); p++) t[p] = (char)toupper(t[p]);
        judge(mk("bech32_decode", {B(t)}, {h.size() + 2}), "hrpbyte", i, random_mode(r));
      }
      bool up = false;
      for (char c : h) up |= (c >= 'A' && c <= 'Z') || (uint8_t)c < 33 || (uint8_t)c > 126;
      if (!up) judge(mk("bech32_encode", {B(h), d}), "hrpbyte", i, random_mode(r));
    }
  });
  // an illegal symbol with a checksum that would fit if it stood for a value
  items("phantom", 256, [&](Rng &r, uint64_t i) {
    if (strchr(A, tolower((int)i)) && i) return;
    for (int v : {0, 1, 15, 16, 23, 31, 32, 63, 127, 128, 254, 255, (int)(i & 31), (int)r.byte()}) {
      size_t hl, dl;
      shape(r, hl, dl, 2, 20);
      std::string h = r.chance(1, 2) ? "bc" : std::string(hl, 'x');
      if (h.size() + ++dl + 7 > 90) dl = 90 - 7 - h.size();
      bytes d(dl);
      if (!dl) continue;
      for (auto &x : d) x = r.byte() & 31;
      size_t at = r.below(d.size());
      d[at] = (uint8_t)v;
      std::string t = ref::bech_enc(h, d);
      t[h.size() + 1 + at] = (char)i;
      judge(mk("bech32_decode", {B(t)}, {h.size() + 1}), "phantom", i, random_mode(r));
    }
  });
  // checksums of another make: every single bit of the final constant, pairs
  // of bits, the constants of bech32m and of mistakes, other expansions
  static const uint32_t constants[] = {0, 0x2bc830a3, 0x3fffffff, 2, 0x20000000, 0x3fffffff ^ 1, 0x2bc830a3 ^ 1};
  items("residue", 90 * 8, [&](Rng &r, uint64_t i) {
    size_t total = 8 + i / 8 % 83, hl = 1 + r.below(total - 7 > 83 ? 83 : total - 7), dl = total - 7 - hl;
    if (i % 8 < 4) hl = 1 + r.below(std::min<size_t>(4, total - 7)), dl = total - 7 - hl;
    std::string h;
    for (size_t k = 0; k < hl; k++) { char c = (char)r.range(33, 126); if (c >= 'A' && c <= 'Z') c = (char)(c | 32); h += c; }
    bytes d(dl);
    for (auto &x : d) x = r.byte() & 31;
    auto go = [&](const std::string &t) { judge(mk("bech32_decode", {B(t)}, {83}), "residue", i, plain_mode(i)); };
    for (uint32_t c : constants) go(ref::bech_enc_with(h, d, c));
    if (i % 8 == 0) for (int b = 0; b < 30; b++) go(ref::bech_enc_with(h, d, 1 ^ (1u << b)));
    if (i % 8 == 1) for (int b = 0; b < 30; b++) for (int a = 0; a < b; a++) go(ref::bech_enc_with(h, d, 1 ^ (1u << b) ^ (1u << a)));
    for (int k = 0; k < 20; k++) go(ref::bech_enc_with(h, d, (uint32_t)r.u64() & 0x3fffffff));
    for (int kind = 0; kind < ref::BECH_KINDS; kind++) for (uint32_t c : {1u, 0u, 0x2bc830a3u}) go(ref::bech_enc_with(h, d, c, kind));
    { std::string u = h; for (auto &c : u) if (c >= 'a' && c <= 'z') c = (char)(c - 32); std::string t = ref::bech_enc(u, d); for (auto &c : t) c = (char)tolower(c); go(t); }
    stats.add("foreign_checksums", 30);
  });
  // separators: none, first, several, in the data part
  items("separator", scaled(3000), [&](Rng &r, uint64_t i) {
    std::string h;
    size_t hl, dl;
    shape(r, hl, dl, 8, 20);
    for (size_t k = 0, n = hl - (hl < 9); k < n; k++) h += r.chance(1, 2) ? '1' : (char)('a' + r.below(26));
    bytes d(dl);
    for (auto &x : d) x = r.byte() & 31;
    bytes t = B(ref::bech_enc(h, d));
    if (r.chance(1, 3)) t.insert(t.begin() + (long)r.below(t.size() + 1), '1');
    if (r.chance(1, 6)) t[r.below(t.size())] = '1';
    if (r.chance(1, 4)) { t.resize(r.below(14)); for (auto &x : t) x = (uint8_t)(r.chance(1, 5) ? '1' : A[r.below(32)]); }
    judge(mk("bech32_decode", {t}, {r.chance(1, 2) ? h.size() : r.below(12)}), "separator", i, random_mode(r));
  });
}

static void p_c09() {
  run_ops("C09", 4000, {{"address_decode", 6}});
  // witness versions x program lengths x padding, both networks
  items("segwit", 32 * 43, [&](Rng &r, uint64_t i) {
    int ver = (int)(i / 43);
    size_t len = i % 43;
    ref::Params p = i % 4 == 3 ? gen_params(r) : ref::builtin((int)(i % 3));
    bytes prog = gen_bytes(r, len);
    bytes sym = cat(bytes(1, (uint8_t)ver), ref::b32_raw_enc(prog));
    auto dec = [&](const bytes &s, const ref::Params &q) {
      Case c = mk("address_decode", {B(ref::bech_enc(p.hrp, s))}, {120});
      c.p = q;
      judge(c, "segwit", i, random_mode(r));
    };
    dec(sym, p);
    for (int b = 0; b < 5; b++) if (sym.size() > 1) { bytes s = sym; s.back() ^= (uint8_t)(1 << b); dec(s, p); }
    for (int k = 1; k < 4; k++) { bytes s = sym; s.insert(s.end(), (size_t)k, 0); dec(s, p); s.back() = 1; dec(s, p); }
    { bytes s = sym; s.pop_back(); dec(s, p); }
    for (uint32_t k : {0u, 0x2bc830a3u, 0x3fffffffu, (uint32_t)r.u64() & 0x3fffffffu}) {   // bech32m and other checksums
      Case c = mk("address_decode", {B(ref::bech_enc_with(p.hrp, sym, k))}, {120});
      c.p = p;
      judge(c, "segwit", i, random_mode(r));
    }
    for (int b = 0; b < 3; b++) dec(sym, ref::builtin(b));
    if (ver <= 16) {
      Case c = mk("address_witness", {cat(bytes(1, (uint8_t)ver), prog)}, {100});
      c.p = p;
      judge(c, "segwit", i, random_mode(r));
    }
    stats.add("witness_version_length_pairs");
  });
  // prefixes of every length with programs of every length, on both sides of
  // the 90 characters BIP173 allows
  items("prefix", 84 * 6, [&](Rng &r, uint64_t i) {
    ref::Params p = ref::builtin(0);
    p.builtin = -1;
    p.hrp.clear();
    for (size_t k = 0; k < 1 + i % 84; k++) p.hrp += (char)(r.chance(1, 8) ? '1' : r.chance(1, 8) ? r.range(33, 64) : r.range('a', 'z'));
    size_t room = p.hrp.size() < 82 ? 82 - p.hrp.size() : 0;  // symbols of program that still fit
    size_t lens[] = {2, 20, 32, 40, room * 5 / 8, room * 5 / 8 + 1};
    size_t len = lens[i / 84 % 6];
    len = len < 2 ? 2 : len > 40 ? 40 : len;
    bytes prog = rnd(r, len);
    auto go = [&](const char *op, const bytes &in) { Case c = mk(op, {in}, {150}); c.p = p; judge(c, "prefix", i, random_mode(r)); };
    go("address_witness", cat(bytes(1, (uint8_t)r.range(1, 16)), prog));
    go("address_w0key", rnd(r, 20));
    go("address_w0script", rnd(r, 32));
    go("address_decode", B(ref::addr_segwit((int)r.range(1, 16), prog, p)));
    go("address_decode", B(ref::addr_segwit(0, rnd(r, r.chance(1, 2) ? 20 : 32), p)));
    ref::Params q = p;
    q.hrp[r.below(q.hrp.size())] ^= 1;
    Case c = mk("address_decode", {B(ref::addr_segwit(1, prog, q))}, {150});
    c.p = p;
    judge(c, "prefix", i, random_mode(r));
    stats.add("prefix_program_length_pairs");
  });
  // every prefix length with every program length, each with exactly the room
  // it needs, one less and one more
  items("fits", 83, [&](Rng &r, uint64_t i) {
    ref::Params p = gen_params(r);
    p.builtin = -1;
    p.hrp.clear();
    for (size_t k = 0; k < 1 + i; k++) p.hrp += (char)(r.chance(1, 8) ? '1' : r.range('a', 'z'));
    auto go = [&](const char *op, const bytes &in, size_t need) {
      for (size_t cap : {need, need - 1, need + 1}) {
        Case c = mk(op, {in}, {cap});
        c.p = p;
        judge(c, "fits", i, plain_mode(cap % 3));
        stats.add("exact_capacities");
      }
    };
    for (size_t len = 2; len <= 40; len++) {
      int ver = (int)r.range(1, 16);
      bytes prog = rnd(r, len);
      size_t text = p.hrp.size() + 8 + (len * 8 + 4) / 5;
      go("address_witness", cat(bytes(1, (uint8_t)ver), prog), text);
      if (len == 20) go("address_w0key", prog, text);
      if (len == 32) go("address_w0script", prog, text);
      if (text > 90) continue;
      go("address_decode", B(ref::addr_segwit(ver, prog, p)), len + 1);
      if (len == 20 || len == 32) go("address_decode", B(ref::addr_segwit(0, prog, p)), len);
    }
    for (size_t len = i; len < 166; len += 83) {
      bytes id = rnd(r, len);
      go("address_decode", B(ref::addr_pk(id, p)), len ? len : 1);
      go("address_decode", B(ref::addr_sc(id, p)), len ? len : 1);
      go("address_pubkey", id, fingera_to_base58_check_length(len, p.pk.size()));
      go("address_script", id, fingera_to_base58_check_length(len, p.sc.size()));
    }
  });
  // version bytes outside 0..31
  items("version", 256, [&](Rng &r, uint64_t i) {
    for (size_t len : {0, 1, 2, 20, 32, 40, 41}) {
      Case c = mk("address_witness", {cat(bytes(1, (uint8_t)i), rnd(r, len))}, {100});
      c.p = gen_params(r);
      judge(c, "version", i, random_mode(r));
    }
  });
  // all capacities around the size of each kind
  items("capacity", 120, [&](Rng &r, uint64_t i) {
    ref::Params p = gen_params(r);
    auto go = [&](const char *op, const bytes &in) { Case c = mk(op, {in}, {i}); c.p = p; judge(c, "capacity", i, random_mode(r)); };
    for (int k = 0; k < 3; k++) {
      bytes h20 = gen_bytes(r, 20), h32 = gen_bytes(r, 32);
      go("address_pubkey", h20);
      go("address_script", h20);
      go("address_pubkey", gen_bytes(r, r.below(80)));
      go("address_w0key", h20);
      go("address_w0script", h32);
      go("address_witness", cat(bytes(1, (uint8_t)r.range(1, 16)), gen_bytes(r, r.range(2, 40))));
      for (int kind = 0; kind < 5; kind++) {
        std::string s = kind == 0 ? ref::addr_pk(h20, p) : kind == 1 ? ref::addr_sc(h20, p) : kind == 2 ? ref::addr_segwit(0, h20, p) : kind == 3 ? ref::addr_segwit(0, h32, p) : ref::addr_segwit(7, h32, p);
        go("address_decode", B(s));
      }
    }
  });
  // every character of an address replaced by every byte
  every_byte("damage", "address_decode", scaled(40), [](Rng &r, uint64_t i) {
    const ref::Params &p = ref::builtin((int)(i / 4 % 3));
    switch (i % 4) {
      case 0: return B(ref::addr_pk(rnd(r, 20), p));
      case 1: return B(ref::addr_sc(rnd(r, 20), p));
      case 2: return B(ref::addr_segwit(0, rnd(r, 20), p));
      default: return B(ref::addr_segwit((int)(i % 17), rnd(r, 32), p));
    }
  }, [](Case &c) { c.n = {100}; c.p = ref::builtin(0); });
  // cross network, cross kind
  items("network", scaled(2000), [&](Rng &r, uint64_t i) {
    ref::Params a = gen_params(r), b = r.chance(1, 2) ? gen_params(r) : a;
    if (b.builtin < 0 && r.chance(1, 2)) {  // a network sharing most of its prefixes
      if (r.chance(1, 2) && !(b.pk == a.sc)) b.pk = a.pk, b.sc = a.sc;
      b.hrp = a.hrp + (r.chance(1, 2) && a.hrp.size() < 83 ? "x" : "");
      if (r.chance(1, 3) && a.hrp.size() > 1) b.hrp = a.hrp.substr(0, a.hrp.size() - 1);
    }
    bytes h = gen_bytes(r, r.chance(1, 2) ? 20 : 32);
    for (int kind = 0; kind < 4; kind++) {
      std::string s = kind == 0 ? ref::addr_pk(h, a) : kind == 1 ? ref::addr_sc(h, a) : kind == 2 ? ref::addr_segwit(0, h, a) : ref::addr_segwit(1 + (int)r.below(16), h, a);
      Case c = mk("address_decode", {B(s)}, {120});
      c.p = b;
      judge(c, "network", i, random_mode(r));
    }
    stats.add("cross_network_pairs");
  });
  items("foreign", 40 * ref::B58C_KINDS, [&](Rng &r, uint64_t i) {  // checksums of another make
    ref::Params p = i & 1 ? gen_params(r) : ref::builtin((int)(i % 3));
    Case c = mk("address_decode", {B(ref::b58_enc(ref::b58c_foreign(cat(i / 2 & 1 ? p.pk : p.sc, gen_bytes(r, 20)), (int)(i % ref::B58C_KINDS))))}, {120});
    c.p = p;
    judge(c, "foreign", i, random_mode(r));
  });
  // payloads of any length
  items("payload", 300, [&](Rng &r, uint64_t i) {
    ref::Params p = gen_params(r);
    bytes h = gen_bytes(r, i);
    for (int kind = 0; kind < 2; kind++) {
      Case c = mk(kind ? "address_pubkey" : "address_script", {h}, {1000});
      c.p = p;
      judge(c, "payload", i, random_mode(r));
      Case d = mk("address_decode", {B(kind ? ref::addr_pk(h, p) : ref::addr_sc(h, p))}, {1000});
      d.p = p;
      judge(d, "payload", i, random_mode(r));
    }
  });
}

static void p_c10() {
  run_ops("C10", 20000);
  auto both = [&](uint64_t v, const char *sec, uint64_t i, bool record) {
    // fast path: the two directions against the reference, without case objects
    if (record) set_case(sec, i, "varint value " + std::to_string(v));
    bytes w = ref::varint_enc(v);
    uint8_t o[10 + 16];
    memset(o, 0x5a, sizeof o);
    size_t n = fingera_encode_varint(v, o + 8);
    bool bad = n != w.size() || memcmp(o + 8, w.data(), w.size() < 10 ? w.size() : 10) != 0;
    for (int k = 0; k < 8; k++) bad |= o[k] != 0x5a || o[18 + k] != 0x5a;
    if (bad) { set_case(sec, i, "encode_varint " + std::to_string(v)); violation("encode_varint:value", "returned " + std::to_string(n) + " " + hexs(o, sizeof o) + ", want " + hexs(w)); }
    uint64_t back = ~v;
    size_t m = fingera_decode_varint(w.data(), w.size(), &back);
    if (m != w.size() || back != v) { set_case(sec, i, "decode_varint " + hexs(w)); violation("decode_varint:value", "used " + std::to_string(m) + " value " + std::to_string(back)); }
    int64_t z = (int64_t)v, zb = ~z;
    bytes zw = ref::zigzag_enc(z);
    n = fingera_encode_zigzag(z, o + 8);
    if (n != zw.size() || memcmp(o + 8, zw.data(), zw.size()) != 0) { set_case(sec, i, "encode_zigzag " + std::to_string(z)); violation("encode_zigzag:value", "returned " + std::to_string(n) + " " + hexs(o, sizeof o)); }
    m = fingera_decode_zigzag(zw.data(), zw.size(), &zb);
    if (m != zw.size() || zb != z) { set_case(sec, i, "decode_zigzag " + hexs(zw)); violation("decode_zigzag:value", "used " + std::to_string(m) + " value " + std::to_string(zb)); }
    stats.evaluations += 4;
    stats.nontrivial(Rng::mix(v));
  };
  items("values", quick() ? 512 : 8192, [&](Rng &, uint64_t i) {
    for (uint64_t k = 0; k < 1024; k++) both(i * 1024 + k, "values", i, false);
    for (uint64_t k = 0; k < 256; k++) both(~(i * 256 + k), "values", i, false);
    stats.add("values_both_ends", 1280);
  });
  items("powers", 64 * 33, [&](Rng &, uint64_t i) {
    uint64_t v = (1ull << (i / 33)) + (i % 33) - 16;
    both(v, "powers", i, false);
    unsigned __int128 e = 0;  // length boundaries
    for (size_t k = 0; k < i / 33 % 10 + 1; k++) e = (e << 7) + 128;
    both((uint64_t)e + (i % 33) - 16, "powers", i, false);
  });
  // halves, quarters and bytes at their extremes, runs of ones, and both signs
  items("patterns", 64, [&](Rng &r, uint64_t i) {
    static const uint64_t h[] = {0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7f7f7f7f, 0x80808080, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff};
    const size_t nh = sizeof h / sizeof *h;
    auto each = [&](uint64_t v) { both(v, "patterns", i, false); both(0 - v, "patterns", i, false); both(v >> 1, "patterns", i, false); stats.add("pattern_values", 3); };
    for (size_t k = i; k < nh * nh; k += 64) each(h[k / nh] << 32 | h[k % nh]);
    static const uint64_t q[] = {0, 1, 0x7fff, 0x8000, 0xffff};
    for (size_t k = i; k < 625; k += 64) each(q[k / 125] << 48 | q[k / 25 % 5] << 32 | q[k / 5 % 5] << 16 | q[k % 5]);
    static const uint64_t by[] = {0, 0x7f, 0x80, 0xff};
    for (size_t k = i; k < 65536; k += 64) { uint64_t v = 0; for (int b = 0; b < 8; b++) v |= by[k >> (2 * b) & 3] << (8 * b); each(v); }
    for (int lo = 0; lo < 64; lo++) { uint64_t m = (~0ull >> (63 - i)) & (~0ull << lo); each(m); each(~m); each(1ull << i | 1ull << lo); each(~0ull << lo); each((r.u64() & ~m) | (r.chance(1, 2) ? m : 0)); }
    // one half special, the other anything
    for (int k = 0; k < 2000; k++) { uint64_t x = h[r.below(nh)], y = r.u64(); each(r.chance(1, 2) ? x << 32 | (uint32_t)y : (y << 32) | x); each(y >> r.below(64)); }
  });
  auto dec = [&](const bytes &b, const char *sec, uint64_t i) {
    uint64_t v = 0, x = 0x1122334455667788ull;
    size_t want = ref::varint_dec(b, v);
    bytes *copy = nullptr;
    (void)copy;
    size_t n = fingera_decode_varint(b.data(), b.size(), &x);
    if (n != want || (want && x != v)) { set_case(sec, i, "decode_varint " + hexs(b)); violation("decode_varint:value", "used " + std::to_string(n) + " value " + std::to_string(x) + ", want " + std::to_string(want) + " " + std::to_string(v)); }
    int64_t zv = 0, zx = 0;
    want = ref::zigzag_dec(b, zv);
    n = fingera_decode_zigzag(b.data(), b.size(), &zx);
    if (n != want || (want && zx != zv)) { set_case(sec, i, "decode_zigzag " + hexs(b)); violation("decode_zigzag:value", "used " + std::to_string(n) + " value " + std::to_string(zx)); }
    stats.evaluations += 2;
    stats.nontrivial(fnv(b.data(), b.size()));
  };
  // whatever follows, however much of it
  items("followed", 600, [&](Rng &r, uint64_t i) {
    uint64_t v = r.u64() >> r.below(64);
    bytes w = i & 1 ? ref::zigzag_enc((int64_t)v) : ref::varint_enc(v);
    size_t rest = i < 300 ? i : i < 330 ? 500 + i - 300 : i < 400 ? 65500 + i - 330 : gen_len(r, 3000);
    bytes t = cat(w, r.chance(1, 2) ? bytes(rest, r.byte()) : rnd(r, rest));
    judge(mk(i & 1 ? "decode_zigzag" : "decode_varint", {t}), "followed", i, random_mode(r));
    dec(t, "followed", i);
  });
  // every input of one, two (and three) bytes
  items("inputs", 257, [&](Rng &, uint64_t i) {
    if (i == 256) { dec({}, "inputs", i); return; }
    dec({(uint8_t)i}, "inputs", i);
    for (int a = 0; a < 256; a++) {
      dec({(uint8_t)i, (uint8_t)a}, "inputs", i);
      for (int b = quick() ? (int)(i + a) % 16 : 0; b < 256; b += quick() ? 16 : 1) dec({(uint8_t)i, (uint8_t)a, (uint8_t)b}, "inputs", i);
    }
    stats.add("all_short_inputs", 1);
  });
  // inputs of 8..12 bytes around the 64-bit limit: one byte of the largest
  // encodings replaced by every value
  items("limit", 64, [&](Rng &r, uint64_t i) {
    bytes w = ref::varint_enc(i < 32 ? ~0ull - i : (1ull << 63) + (i - 48) * 3);
    for (size_t p = 0; p < w.size(); p++) for (int v = 0; v < 256; v++) {
      bytes x = w;
      x[p] = (uint8_t)v;
      dec(x, "limit", i);
      x.push_back(r.byte());
      x.insert(x.begin(), 0x80 | r.byte());
      dec(x, "limit", i);
    }
    for (size_t cut = 0; cut < w.size(); cut++) dec(bytes(w.begin(), w.begin() + cut), "limit", i);
  });
}

// A message of any length made of one 64 MiB pattern repeated in the address space.
static const uint8_t *big_message(size_t n) {
  static const size_t W = 64u << 20;
  int fd = (int)syscall(SYS_memfd_create, "big", 0);
  if (fd < 0 || ftruncate(fd, (off_t)W) != 0) { perror("memfd"); _exit(2); }
  uint8_t *w = (uint8_t *)mmap(0, W, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  uint64_t x = 0x0123456789abcdefull;
  for (size_t i = 0; i < W; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(w + i, &x, 8); }
  munmap(w, W);
  size_t maps = (n + W - 1) / W;
  uint8_t *base = (uint8_t *)mmap(0, maps * W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (size_t i = 0; i < maps; i++)
    if (mmap(base + i * W, W, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(2); }
  close(fd);
  return base;
}
#include "bigconst.hpp"

static void big_hashes(bool huge) {
  struct { const char *name; void (*f)(const void *, size_t, void *); size_t n; } fs[] = {
      {"sha1", fingera_sha1, 20}, {"sha256", fingera_sha2_256, 32}, {"sha512", fingera_sha2_512, 64}, {"ripemd160", fingera_ripemd160, 20}};
  size_t len = huge ? BIG_HUGE : BIG_LARGE;
  items(huge ? "huge" : "large", 4, [&](Rng &, uint64_t i) {
    const uint8_t *m = big_message(len);
    set_case(huge ? "huge" : "large", i, std::string(fs[i].name) + " of a " + std::to_string(len) + "-byte message");
    uint8_t o[64 + 16];
    memset(o, 0x77, sizeof o);
    fs[i].f(m, len, o + 8);
    std::string got = hexs(o + 8, fs[i].n), want = BIG_CONST[huge ? 1 : 0][i];
    stats.evaluations++;
    stats.nontrivial(fnvs(got));
    stats.add(huge ? "messages_over_4GiB" : "messages_over_512MiB");
    if (got != want) violation(std::string(fs[i].name) + ":value", "got " + got + " want " + want);
  });
}

static void p_c11() {
  run_ops("C11", 6000);
  static const struct { const char *op; void (*f)(const void *, size_t, void *); size_t n; bytes (*r)(const bytes &); } fs[] = {
      {"sha1", fingera_sha1, 20, ref::sha1}, {"sha256", fingera_sha2_256, 32, ref::sha256}, {"sha512", fingera_sha2_512, 64, ref::sha512}, {"ripemd160", fingera_ripemd160, 20, ref::rmd160}};
  for (auto &f : fs) {
    std::string nm = std::string("length.") + f.op;
    items(nm, 1100, [&](Rng &r, uint64_t i) {
      for (int k = 0; k < 3; k++) judge(mk(f.op, {k == 0 ? bytes(i, 0xff) : gen_bytes(r, i)}), nm.c_str(), i, random_mode(r));
    });
    // every relative alignment of message and digest
    std::string na = std::string("align.") + f.op;
    items(na, 16 * 16, [&](Rng &r, uint64_t i) {
      size_t a = i / 16, b = i % 16;
      for (size_t len : {0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 200}) {
        bytes m = rnd(r, len), want = f.r(m);
        std::vector<uint8_t> in(len + 64), out(128 + 64, 0x3c);
        uint8_t *ip = in.data(), *op = out.data();
        ip += (16 - ((uintptr_t)ip & 15)) % 16 + a;
        op += (16 - ((uintptr_t)op & 15)) % 16 + b;
        if (len) memcpy(ip, m.data(), len);
        set_case(na.c_str(), i, std::string(f.op) + " " + hexs(m) + " message at 16k+" + std::to_string(a) + ", digest at 16k+" + std::to_string(b));
        f.f(ip, len, op);
        stats.evaluations++;
        if (memcmp(op, want.data(), f.n) != 0) violation(std::string(f.op) + ":value", "wrong digest " + hexs(op, f.n));
        if (len && memcmp(ip, m.data(), len) != 0) violation(std::string(f.op) + ":memory", "message modified");
        for (uint8_t *q = out.data(); q < out.data() + out.size(); q++) if ((q < op || q >= op + f.n) && *q != 0x3c) { violation(std::string(f.op) + ":memory", "bytes outside the digest modified"); break; }
      }
      stats.add("alignment_pairs");
    });
  }
  // single bits: every bit of a message matters exactly as in the standard
  items("bit", 4 * 260, [&](Rng &, uint64_t i) {
    bytes m(i / 4, 0);
    for (size_t p = 0; p < m.size(); p += 1) { m[p] = (uint8_t)(1 << (p & 7)); judge(mk(fs[i % 4].op, {m}), "bit", i, plain_mode(p)); m[p] = 0; if (p > 140) p += 7; }
  });
  items("wide", WIDE, [&](Rng &r, uint64_t i) {
    for (auto &f : fs) judge(mk(f.op, {gen_bytes(r, wide_len(i))}), "wide", i, random_mode(r));
    stats.add("wide_lengths");
  });
  // the digest written over its own message, as hash chains do
  items("over", 4 * 260, [&](Rng &r, uint64_t i) {
    auto &f = fs[i % 4];
    size_t len = i / 4;
    bytes m = gen_bytes(r, len), buf = m;
    if (buf.size() < f.n) buf.resize(f.n, 0x3c);
    for (int at = 0; at < 2; at++) {
      bytes x = buf;
      size_t o = at ? r.below(x.size() - f.n + 1) : 0;
      set_case("over", i, std::string(f.op) + " of " + hexs(m) + " written over its message at offset " + std::to_string(o));
      f.f(x.data(), len, x.data() + o);
      bytes rest = x, want = buf;
      memset(rest.data() + o, 0, f.n);
      memset(want.data() + o, 0, f.n);
      over("over", i, f.op, "digest over its message", x.data() + o, f.r(m), rest, want);
    }
  });
  items("long", scaled(60), [&](Rng &r, uint64_t i) { for (auto &f : fs) judge(mk(f.op, {rnd(r, r.below(1 << 20))}), "long", i, random_mode(r)); });
}

static void p_c12() {
  run_ops("C12", 8000);
  items("keys", 2 * 300, [&](Rng &r, uint64_t i) {
    const char *op = i & 1 ? "hmac_sha512" : "hmac_sha256";
    for (size_t ml : {(size_t)0, (size_t)1, (size_t)55, (size_t)56, (size_t)64, (size_t)111, (size_t)112, (size_t)128, (size_t)r.below(300)}) judge(mk(op, {gen_bytes(r, i / 2), rnd(r, ml)}), "keys", i, random_mode(r));
    stats.add("key_lengths");
  });
  items("messages", 2 * 600, [&](Rng &r, uint64_t i) {
    const char *op = i & 1 ? "hmac_sha512" : "hmac_sha256";
    for (size_t kl : {0, 1, 20, 32, 63, 64, 65, 127, 128, 129, 131, 200}) judge(mk(op, {rnd(r, kl), gen_bytes(r, i / 2)}), "messages", i, random_mode(r));
  });
  items("align", 16 * 16, [&](Rng &r, uint64_t i) {
    for (int which = 0; which < 2; which++) {
      size_t n = which ? 64 : 32;
      bytes k = rnd(r, r.below(150)), m = rnd(r, r.below(150));
      std::vector<uint8_t> in(m.size() + 64), kin(k.size() + 64), out(192, 0x3c);
      uint8_t *ip = in.data() + i / 16, *kp = kin.data() + i % 7, *op = out.data() + i % 16;
      if (m.size()) memcpy(ip, m.data(), m.size());
      if (k.size()) memcpy(kp, k.data(), k.size());
      set_case("align", i, "hmac " + hexs(k) + " " + hexs(m));
      (which ? fingera_hmac_sha512 : fingera_hmac_sha256)(kp, k.size(), ip, m.size(), op);
      stats.evaluations++;
      bytes want = which ? ref::hmac512(k, m) : ref::hmac256(k, m);
      if (memcmp(op, want.data(), n) != 0) violation(which ? "hmac_sha512:value" : "hmac_sha256:value", "wrong value at odd alignment");
      if ((m.size() && memcmp(ip, m.data(), m.size())) || (k.size() && memcmp(kp, k.data(), k.size()))) violation(which ? "hmac_sha512:memory" : "hmac_sha256:memory", "key or message modified");
    }
  });
  // One buffer as key and message; one the beginning or the end of the other.
  items("shared", 2 * 300, [&](Rng &r, uint64_t i) {
    const char *op = i & 1 ? "hmac_sha512" : "hmac_sha256";
    bytes k = gen_bytes(r, i / 2), more = gen_bytes(r, i / 2 + 1 + r.below(200));
    MemMode m = random_mode(r);
    m.share = true;
    judge(mk(op, {k, k}), "shared", i, m);
    judge(mk(op, {more, bytes(more.begin(), more.begin() + i / 2)}), "shared", i, m);
    judge(mk(op, {more, bytes(more.end() - i / 2, more.end())}), "shared", i, m);
    stats.add("shared_lengths");
  });
  items("wide", WIDE, [&](Rng &r, uint64_t i) {
    for (const char *op : {"hmac_sha256", "hmac_sha512"}) {
      judge(mk(op, {gen_bytes(r, wide_len(i)), gen_bytes(r, r.below(40))}), "wide", i, random_mode(r));
      judge(mk(op, {rnd(r, r.below(200)), gen_bytes(r, wide_len(i))}), "wide", i, random_mode(r));
    }
    judge(mk(i & 1 ? "hmac_sha512" : "hmac_sha256", {gen_bytes(r, wide_len(r.below(40))), gen_bytes(r, wide_len(r.below(40)))}), "wide", i, random_mode(r));
    stats.add("wide_lengths");
  });
  // the value written over the key or over the message
  items("over", 400, [&](Rng &r, uint64_t i) {
    bool big = i & 1;
    size_t n = big ? 64 : 32;
    bytes k = gen_bytes(r, gen_len(r, 300)), m = gen_bytes(r, gen_len(r, 300)), want = big ? ref::hmac512(k, m) : ref::hmac256(k, m);
    bytes kb = k, mb = m;
    if (kb.size() < n) kb.resize(n);
    if (mb.size() < n) mb.resize(n);
    set_case("over", i, std::string("hmac of ") + hexs(k) + " " + hexs(m) + (i & 2 ? " over the key" : " over the message"));
    uint8_t *o = i & 2 ? kb.data() : mb.data();
    (big ? fingera_hmac_sha512 : fingera_hmac_sha256)(kb.data(), k.size(), mb.data(), m.size(), o);
    over("over", i, big ? "hmac_sha512" : "hmac_sha256", i & 2 ? "value over the key" : "value over the message", o, want);
  });
  items("long", scaled(40), [&](Rng &r, uint64_t i) {
    judge(mk("hmac_sha256", {rnd(r, r.below(5000)), rnd(r, r.below(300000))}), "long", i, random_mode(r));
    judge(mk("hmac_sha512", {rnd(r, r.below(5000)), rnd(r, r.below(300000))}), "long", i, random_mode(r));
  });
}
static void big_hmac() {
  items("large_hmac", 4, [&](Rng &, uint64_t i) {
    size_t len = BIG_LARGE;
    const uint8_t *m = big_message(len);
    set_case("large_hmac", i, "hmac with a " + std::to_string(len) + "-byte " + (i & 2 ? "key" : "message"));
    uint8_t o[64];
    auto f = i & 1 ? fingera_hmac_sha512 : fingera_hmac_sha256;
    if (i & 2) f(m, len, "hello", 5, o);
    else f("hello", 5, m, len, o);
    std::string got = hexs(o, i & 1 ? 64 : 32);
    stats.evaluations++;
    stats.nontrivial(fnvs(got));
    stats.add("hmac_over_512MiB");
    if (got != BIG_HMAC[i]) violation(i & 1 ? "hmac_sha512:value" : "hmac_sha256:value", "got " + got + " want " + BIG_HMAC[i]);
  });
}

static void p_c13() {
  run_ops("C13", 5000, {{"key_keyid", 0.4}, {"pubkey_keyid", 0.4}});
  // keys whose coordinates or identifiers start with zero bytes
  items("special", special_keys(), [&](Rng &r, uint64_t i) {
    bytes k = special_key(i);
    for (uint64_t f = 0; f < 3; f++) {
      judge(mk("key_keyid", {k}, {f}), "special", i, random_mode(r));
      judge(mk("pubkey_keyid", {ref::pub_of(k, false)}, {f}), "special", i, random_mode(r));
    }
    judge(mk("pubkey_fingerprint", {ref::pub_of(k, true)}), "special", i, random_mode(r));
    for (bool c : {false, true}) { judge(mk("hash160", {ref::pub_of(k, c)}), "special", i, random_mode(r)); judge(mk("hash256", {ref::pub_of(k, c)}), "special", i, random_mode(r)); }
  });
  items("length", 700, [&](Rng &r, uint64_t i) {
    judge(mk("hash160", {gen_bytes(r, i)}), "length", i, random_mode(r));
    judge(mk("hash256", {gen_bytes(r, i)}), "length", i, random_mode(r));
  });
  items("blocks", 260, [&](Rng &r, uint64_t i) {
    size_t n = i < 256 ? i : i < 258 ? 65534 + (i - 256) * 3 : 1000 + r.below(4000);
    judge(mk("hash256_d64", {i & 1 ? rnd(r, 64 * n) : gen_bytes(r, 64 * n)}), "blocks", i, random_mode(r));
    stats.add("block_counts");
  });
  // block independence: changing one block changes only its own digest (by value)
  items("independent", scaled(400), [&](Rng &r, uint64_t i) {
    size_t n = 1 + r.below(12);
    bytes d = rnd(r, 64 * n);
    if (r.chance(1, 2)) for (size_t k = 64; k < d.size(); k++) d[k] = d[k - 64];
    judge(mk("hash256_d64", {d}), "independent", i, random_mode(r));
    d[r.below(d.size())] ^= 1;
    judge(mk("hash256_d64", {d}), "independent", i, random_mode(r));
  });
  items("wide", WIDE, [&](Rng &r, uint64_t i) {
    judge(mk("hash160", {gen_bytes(r, wide_len(i))}), "wide", i, random_mode(r));
    judge(mk("hash256", {gen_bytes(r, wide_len(i))}), "wide", i, random_mode(r));
    if (wide_len(i) < 40000) judge(mk("hash256_d64", {rnd(r, 64 * wide_len(i))}), "wide", i, random_mode(r));
    stats.add("wide_lengths");
  });
  // results over their inputs: hash chains, and a level of a Merkle tree in place
  items("over", 600, [&](Rng &r, uint64_t i) {
    if (i < 300) {
      size_t n = i < 270 ? i : i == 270 ? 1024 : 1 + r.below(3000);
      bytes d = rnd(r, 64 * n), want, x = d;
      for (size_t k = 0; k < n; k++) want = cat(want, ref::hash256(bytes(d.begin() + 64 * k, d.begin() + 64 * k + 64)));
      set_case("over", i, std::to_string(n) + " blocks hashed in place");
      if (x.empty()) x.push_back(7);
      fingera_btc_hash256_d64(x.data(), x.data(), n);
      over("over", i, "hash256_d64", "in place", x.data(), want, bytes(x.begin() + 32 * n, x.end()), n ? bytes(d.begin() + 32 * n, d.end()) : bytes(1, 7));
      return;
    }
    size_t n = i & 1 ? 20 : 32, len = i < 320 ? 20 + i % 50 : gen_len(r, 500);
    bytes m = gen_bytes(r, len), x = m;
    if (x.size() < n) x.resize(n);
    set_case("over", i, std::string(i & 1 ? "hash160" : "hash256") + " of " + hexs(m) + " over itself");
    (i & 1 ? fingera_btc_hash160 : fingera_btc_hash256)(x.data(), len, x.data());
    over("over", i, i & 1 ? "hash160" : "hash256", "over itself", x.data(), i & 1 ? ref::hash160(m) : ref::hash256(m));
  });
  items("d64bits", 512, [&](Rng &, uint64_t i) {
    bytes d(64, 0);
    d[i / 8] = (uint8_t)(1 << (i % 8));
    judge(mk("hash256_d64", {d}), "d64bits", i, plain_mode(i));
    for (auto &x : d) x = (uint8_t)~x;
    judge(mk("hash256_d64", {d}), "d64bits", i, plain_mode(i));
  });
  items("align", 16 * 16, [&](Rng &r, uint64_t i) {
    bytes m = rnd(r, 192);
    std::vector<uint8_t> in(192 + 32), out(96 + 32, 0x3c);
    uint8_t *ip = in.data() + i / 16, *op = out.data() + i % 16;
    memcpy(ip, m.data(), 192);
    set_case("align", i, "hash256_d64 of 3 blocks " + hexs(m));
    fingera_btc_hash256_d64(op, ip, 3);
    bytes want;
    for (int k = 0; k < 3; k++) want = cat(want, ref::hash256(bytes(m.begin() + 64 * k, m.begin() + 64 * k + 64)));
    stats.evaluations++;
    if (memcmp(op, want.data(), 96) != 0) violation("hash256_d64:value", "wrong value at odd alignment");
    fingera_btc_hash160(ip, 100, op);
    fingera_btc_hash256(ip, 100, op + 20);
    want = cat(ref::hash160(bytes(m.begin(), m.begin() + 100)), ref::hash256(bytes(m.begin(), m.begin() + 100)));
    if (memcmp(op, want.data(), 52) != 0) violation("hash160:value", "wrong value at odd alignment");
  });
  items("children", 33 * 5, [&](Rng &r, uint64_t i) {
    uint64_t c = (i / 5 < 32 ? (1ull << (i / 5)) : 0) + (i % 5) - 2;
    for (int h : {0, 2, 3, 255, (int)r.byte()}) judge(mk("bip32_hash", {rnd(r, 32), rnd(r, 32)}, {(uint32_t)c, (uint64_t)h}), "children", i, random_mode(r));
  });
}

static void p_c14() {
  run_ops("C14", 6000, {{"key_from_string", 3}});
  auto dec = [&](const bytes &t, const ref::Params &p, const char *sec, uint64_t i, Rng &r) {
    Case c = mk("key_from_string", {t});
    c.p = p;
    judge(c, sec, i, random_mode(r));
  };
  items("suffix", 3 * 256, [&](Rng &r, uint64_t i) {  // every byte after the scalar
    ref::Params p = i < 256 ? ref::builtin(0) : i < 512 ? ref::builtin(1) : gen_params(r);
    bytes k = gen_key(r);
    dec(B(ref::b58c_enc(p.sk, cat(k, bytes(1, (uint8_t)i)))), p, "suffix", i, r);
    dec(B(ref::b58c_enc(p.sk, cat(k, bytes{(uint8_t)i, 1}))), p, "suffix", i, r);
    dec(B(ref::b58c_enc(p.sk, cat(k, bytes{1, (uint8_t)i}))), p, "suffix", i, r);
    stats.add("suffix_bytes");
  });
  items("prefix", 256, [&](Rng &r, uint64_t i) {  // every first byte under every built-in network
    bytes k = gen_key(r);
    for (int b = 0; b < 3; b++) {
      dec(B(ref::b58c_enc(bytes(1, (uint8_t)i), cat(k, bytes(1, 1)))), ref::builtin(b), "prefix", i, r);
      dec(B(ref::b58c_enc(bytes(1, (uint8_t)i), k)), ref::builtin(b), "prefix", i, r);
    }
  });
  items("length", 200, [&](Rng &r, uint64_t i) {
    for (int b = 0; b < 2; b++) {
      ref::Params p = b ? gen_params(r) : ref::builtin(0);
      bytes pay = i < 32 ? gen_bytes(r, i) : cat(gen_key(r), bytes(i - 32, 1));
      dec(B(ref::b58c_enc(p.sk, pay)), p, "length", i, r);
    }
    dec(bytes(i, '1'), ref::builtin(0), "length", i, r);
  });
  items("foreign", 20 * ref::B58C_KINDS, [&](Rng &r, uint64_t i) {  // checksums of another make
    ref::Params p = i & 1 ? gen_params(r) : ref::builtin((int)(i % 3));
    dec(B(ref::b58_enc(ref::b58c_foreign(cat(p.sk, i % 4 < 2 ? gen_key(r) : cat(gen_key(r), bytes(1, 1))), (int)(i % ref::B58C_KINDS)))), p, "foreign", i, r);
  });
  items("range", 128, [&](Rng &r, uint64_t i) {  // scalars around 0 and n
    bytes k = i < 64 ? ref::add_small(ref::N, (int64_t)i - 32) : (i < 96 ? ref::num32(i - 64) : gen_any_scalar(r));
    for (int comp = 0; comp < 2; comp++) {
      ref::Params p = gen_params(r);
      dec(B(ref::b58c_enc(p.sk, comp ? cat(k, bytes(1, 1)) : k)), p, "range", i, r);
    }
  });
  every_byte("damage", "key_from_string", scaled(24), [](Rng &r, uint64_t i) { return B(ref::wif(gen_key(r), i & 1, ref::builtin((int)(i / 2 % 3)))); },
             [](Case &c) { c.p = ref::builtin(0); });
  items("roundtrip", scaled(3000), [&](Rng &r, uint64_t i) {
    bytes k = gen_key(r);
    ref::Params p = gen_params(r);
    for (int comp = 0; comp < 2; comp++) {
      Case c = mk("key_to_string", {k}, {(uint64_t)comp});
      c.p = p;
      judge(c, "roundtrip", i, random_mode(r));
      dec(B(ref::wif(k, comp, p)), p, "roundtrip", i, r);
      dec(B(ref::wif(k, comp, p)), gen_params(r), "roundtrip", i, r);
    }
  });
}

static void p_c15() {
  items("special", special_keys(), [&](Rng &r, uint64_t i) {
    bytes k = special_key(i), u = ref::pub_of(k, false);
    judge(mk("key_get_pub", {k}), "special", i, random_mode(r));
    for (uint64_t n : {214, 279}) judge(mk("key_encode", {k}, {n}), "special", i, random_mode(r));
    for (uint64_t n : {33, 65}) judge(mk("pubkey_encode", {u}, {n}), "special", i, random_mode(r));
    for (bool c : {false, true}) { judge(mk("pubkey_decode", {ref::pub_of(k, c)}), "special", i, random_mode(r)); judge(mk("key_decode", {ref::key_der(k, c)}), "special", i, random_mode(r)); }
    stats.add("special_keys");
  });
  run_ops("C15", 5000, {{"key_encode", 0.5}, {"key_get_pub", 0.7}, {"pubkey_decode", 4}, {"key_decode", 4}});
  every_byte("der_damage", "key_decode", scaled(10) < 2 ? 2 : scaled(10), [](Rng &r, uint64_t i) { return ref::key_der(gen_key(r), i & 1); });
  items("der_length", 300, [&](Rng &r, uint64_t i) {
    for (int c = 0; c < 2; c++) {
      bytes d = ref::key_der(gen_key(r), c);
      d.resize(i);
      judge(mk("key_decode", {d}), "der_length", i, random_mode(r));
    }
    bytes x = rnd(r, i);
    if (x.size()) x[0] = 0x30;
    judge(mk("key_decode", {x}), "der_length", i, random_mode(r));
  });
  // minimal structures: every length of length and of scalar
  items("der_shape", 130 * 36, [&](Rng &r, uint64_t i) {
    size_t lb = i / 36, kl = i % 36;
    bytes k = gen_any_scalar(r);
    if (kl < 32) k.erase(k.begin(), k.begin() + (32 - kl));
    else k.insert(k.begin(), kl - 32, 0);
    bytes body = cat(bytes{2, 1, 1, 4, (uint8_t)k.size()}, k);
    bytes o{0x30, (uint8_t)(0x80 | lb)};
    if (lb > 127) o = {0x30, (uint8_t)body.size()};
    for (size_t j = lb; j-- > 0;) o.push_back(j < 8 ? (uint8_t)(body.size() >> (8 * j)) : 0);
    judge(mk("key_decode", {cat(o, body)}), "der_shape", i, random_mode(r));
    if (body.size() > 1) {
      bytes b2(body.begin(), body.end() - 1);
      judge(mk("key_decode", {cat(o, b2)}), "der_shape", i, random_mode(r));
    }
  });
  items("scalars", 128, [&](Rng &r, uint64_t i) {
    bytes k = i < 64 ? ref::add_small(ref::N, (int64_t)i - 32) : ref::num32(i - 64);
    for (int c = 0; c < 2; c++) {
      bytes d = ref::key_der(gen_key(r), c);
      std::copy(k.begin(), k.end(), d.begin() + (c ? 8 : 9));
      judge(mk("key_decode", {d}), "scalars", i, random_mode(r));
    }
    if (ref::key_valid(k)) {
      judge(mk("key_get_pub", {k}), "scalars", i, random_mode(r));
      judge(mk("key_encode", {k}, {214}), "scalars", i, random_mode(r));
      judge(mk("key_encode", {k}, {279}), "scalars", i, random_mode(r));
    }
  });
  items("pub_first", 256, [&](Rng &r, uint64_t i) {  // every first byte, both sizes and parities
    for (int k = 0; k < 8; k++) {
      bytes e = gen_pub(r, k & 1);
      e[0] = (uint8_t)i;
      judge(mk("pubkey_decode", {e}), "pub_first", i, random_mode(r));
      e.resize(r.below(70));
      judge(mk("pubkey_decode", {e}), "pub_first", i, random_mode(r));
    }
  });
  items("pub_length", 300, [&](Rng &r, uint64_t i) {
    for (int k = 0; k < 4; k++) {
      bytes e = gen_pub(r, k & 1);
      e.resize(i);
      judge(mk("pubkey_decode", {e}), "pub_length", i, random_mode(r));
    }
  });
  items("pub_field", 120, [&](Rng &r, uint64_t i) {  // coordinates around p
    bytes x = ref::add_small(ref::P, (int64_t)i - 60);
    for (int pre = 2; pre < 8; pre++) {
      bytes e = cat(bytes(1, (uint8_t)pre), x);
      if (pre >= 4) e = cat(e, r.chance(1, 2) ? rnd(r, 32) : x);
      judge(mk("pubkey_decode", {e}), "pub_field", i, random_mode(r));
    }
    // valid x with y + p (out of range form of a right value): y small is not
    // known, so x small: x + p still fits 32 bytes only for x < 2^32+977
    bytes xs = ref::num32(i + 1), g;
    bytes e = cat(bytes(1, 2), xs);
    bytes canon;
    if (ref::pub_parse(e, canon)) {
      bytes xp = ref::add_small(ref::P, (int64_t)i + 1);
      judge(mk("pubkey_decode", {cat(bytes(1, 2), xp)}), "pub_field", i, random_mode(r));
      bytes u = canon;
      std::copy(xp.begin(), xp.end(), u.begin() + 1);
      judge(mk("pubkey_decode", {u}), "pub_field", i, random_mode(r));
    }
  });
  items("pub_bits", scaled(8), [&](Rng &r, uint64_t i) {
    for (int c = 0; c < 2; c++) {
      bytes e = gen_pub(r, c);
      for (size_t b = 0; b < e.size() * 8; b++) {
        bytes x = e;
        x[b / 8] ^= (uint8_t)(1u << (b % 8));
        judge(mk("pubkey_decode", {x}), "pub_bits", i, plain_mode(b));
      }
    }
  });
  items("pub_forms", scaled(1500), [&](Rng &r, uint64_t i) {
    bytes k = gen_key(r), u = ref::pub_of(k, false);
    judge(mk("key_get_pub", {k}), "pub_forms", i, random_mode(r));
    for (uint64_t n : {33, 65}) judge(mk("pubkey_encode", {u}, {n}), "pub_forms", i, random_mode(r));
    bytes hy = u;
    hy[0] = (uint8_t)(6 | (u[64] & 1));
    judge(mk("pubkey_decode", {hy}), "pub_forms", i, random_mode(r));
    hy[0] ^= 1;
    judge(mk("pubkey_decode", {hy}), "pub_forms", i, random_mode(r));
    judge(mk("pubkey_decode", {u}), "pub_forms", i, random_mode(r));
    judge(mk("pubkey_decode", {ref::pub_convert(u, true)}), "pub_forms", i, random_mode(r));
    judge(mk("key_decode", {ref::key_der(k, i & 1)}), "pub_forms", i, random_mode(r));
  });
}

static void p_c16() {
  // many attempts at a low R, r or s of 30 bytes
  items("special", special_signatures(), [&](Rng &r, uint64_t i) {
    bytes k, h, rs;
    special_signature(i, k, h);
    int tries = 0;
    ref::sign(k, h, rs, &tries);
    stats.add("special_signatures");
    stats.add("special_signature_attempts", (uint64_t)tries);
    judge(mk("sign", {k, h}), "special", i, random_mode(r));
    judge(mk("verify", {ref::pub_of(k, false), h, rs}), "special", i, random_mode(r));
    bytes s = ref::scalar_neg(bytes(rs.begin() + 32, rs.end()));
    std::copy(s.begin(), s.end(), rs.begin() + 32);
    judge(mk("verify", {ref::pub_of(k, false), h, rs}), "special", i, random_mode(r));
  });
  run_ops("C16", 9000, {{"sign", 0.7}});
  items("grind", scaled(4000), [&](Rng &r, uint64_t i) {
    Case c = mk("sign", {gen_key(r), i % 5 ? rnd(r, 32) : gen_bytes(r, 32)});
    int tries = 0;
    bytes rs;
    ref::sign(c.b[0], c.b[1], rs, &tries);
    stats.add("signatures_needing_" + std::string(tries > 6 ? "7+" : std::to_string(tries)) + "_attempts");
    judge(c, "grind", i, random_mode(r));
    // compact: the library's own encoding is at most 70 bytes and 30 44.. strict
    if (ref::sig_der(rs).size() > 70) { fprintf(stderr, "reference signature too long\n"); _exit(2); }
    judge(mk("verify", {ref::pub_of(c.b[0], false), c.b[1], rs}), "grind", i, random_mode(r));
  });
  // every bit of hash, r and s; every bit of x of the key that stays on the curve
  items("bits", scaled(40), [&](Rng &r, uint64_t i) {
    bytes k = gen_key(r), h = rnd(r, 32), rs, pub = ref::pub_of(k, false);
    ref::sign(k, h, rs);
    if (i & 1) { bytes s = ref::scalar_neg(bytes(rs.begin() + 32, rs.end())); std::copy(s.begin(), s.end(), rs.begin() + 32); }
    judge(mk("verify", {pub, h, rs}), "bits", i, random_mode(r));
    for (int b = 0; b < 256 * 3; b++) {
      bytes h2 = h, rs2 = rs;
      if (b < 256) h2[b / 8] ^= (uint8_t)(1 << (b % 8));
      else {
        rs2[(b - 256) / 8] ^= (uint8_t)(1 << (b % 8));
        bytes r1(rs2.begin(), rs2.begin() + 32), s1(rs2.begin() + 32, rs2.end());
        if (r1 >= ref::N || s1 >= ref::N) continue;
      }
      judge(mk("verify", {pub, h2, rs2}), "bits", i, plain_mode(b));
    }
    bytes c = ref::pub_convert(pub, true);
    for (int b = 0; b < 256; b++) {
      bytes e = c, u;
      e[1 + b / 8] ^= (uint8_t)(1 << (b % 8));
      if (!ref::pub_parse(e, u)) continue;
      judge(mk("verify", {u, h, rs}), "bits", i, plain_mode(b));
    }
    stats.add("signatures_bit_flipped");
  });
  // r, s and hash chosen at will, with the key they are right for: no search
  // for a nonce would ever meet an s next to n/2 or an r of a few bits
  items("forged", scaled(6000), [&](Rng &r, uint64_t i) {
    auto number = [&](const bytes &top, unsigned how) {
      switch (how % 9) {
        case 0: return ref::add_small(ref::HALF_N, (int64_t)r.below(9) - 4);
        case 1: return ref::num32(1 + r.below(1 + 255 * (i & 1)));
        case 2: return ref::add_small(top, -1 - (int64_t)r.below(1 + 255 * (i & 1)));
        case 3: { bytes v(32); v[r.below(32)] = (uint8_t)(1u << r.below(8)); return v; }
        case 4: { bytes v(32); v[0] = 0x80; return r.chance(1, 2) ? v : ref::add_small(v, -1 - (int64_t)r.below(3)); }
        case 5: { bytes v = rnd(r, 32); for (size_t z = r.below(32), j = 0; j < z; j++) v[j] = 0; return v; }
        case 6: { bytes v = ref::HALF_N; for (size_t j = 12 + r.below(20); j < 32; j++) v[j] = r.byte(); return v; }
        case 7: { bytes v = top; for (size_t j = 15 + r.below(17); j < 32; j++) v[j] = r.byte(); return v; }
        default: return rnd(r, 32);
      }
    };
    bytes x = number(r.chance(1, 2) ? ref::P : ref::N, (unsigned)r.below(9)), s = number(ref::N, (unsigned)(i % 9)), pub, rs;
    bytes h = r.chance(1, 3) ? number(ref::N, (unsigned)r.below(9)) : r.chance(1, 6) ? bytes(32, r.chance(1, 2) ? 0xff : 0) : rnd(r, 32);
    if (!ref::key_valid(s)) s = ref::num32(1);
    for (int k = 0; k < 40; k++) {
      if (ref::forge(cat(bytes(1, (uint8_t)(2 | r.below(2))), x), s, h, pub, rs)) {
        judge(mk("verify", {pub, h, rs}), "forged", i, random_mode(r));
        stats.add(s > ref::HALF_N ? "forged_signatures_with_high_s" : "forged_signatures_with_low_s");
        if (s > ref::HALF_N && s[0] == 0x7f) stats.add("forged_signatures_with_s_between_half_n_and_2^255");
        bytes t = ref::add_small(ref::HALF_N, (int64_t)r.below(9) - 4);   // and a wrong s
        std::copy(t.begin(), t.end(), rs.begin() + 32);
        judge(mk("verify", {pub, h, rs}), "forged", i, random_mode(r));
        break;
      }
      x = ref::add_small(x, r.chance(1, 2) ? 1 : -1);
    }
  });
  // determinism: the same call twice, in different contexts
  items("again", scaled(300), [&](Rng &r, uint64_t i) {
    Case c = mk("sign", {gen_key(r), rnd(r, 32)});
    set_case("again", i, c.text());
    std::string a = run_case(c, M, random_mode(r));
    dirty(r);
    std::string b = run_case(c, M, random_mode(r));
    stats.evaluations += 2;
    if (a != b) violation("sign:nondeterministic", a + " then " + b);
  });
  if (opt.shard == 0) {
    stats.needs.push_back({"ref:verify:answered", 1});
    stats.needs.push_back({"signatures_needing_2_attempts", 1});
    stats.needs.push_back({"forged_signatures_with_s_between_half_n_and_2^255", 1});
  }
}

static void p_c17() {
  run_ops("C17", 10000, {{"signature_decode", 5}});
  every_byte("damage", "signature_decode", scaled(24), [](Rng &r, uint64_t i) {
    bytes rs = cat(gen_key(r), gen_key(r));
    if (i % 3 == 0) for (size_t z = 0; z < i % 32; z++) rs[z] = 0;
    if (i % 4 == 0) rs[32] = 0, rs[33] |= 0x80;
    return ref::sig_der(rs);
  });
  items("truncate", scaled(60), [&](Rng &r, uint64_t i) {
    bytes d = ref::sig_der(cat(gen_key(r), gen_key(r)));
    bytes t = cat(d, rnd(r, 6));
    for (size_t n = 0; n <= t.size(); n++) judge(mk("signature_decode", {bytes(t.begin(), t.begin() + n)}), "truncate", i, plain_mode(n));
  });
  // long-form lengths of 0..127 length bytes with every declared total
  items("longform", 128 * 3, [&](Rng &r, uint64_t i) {
    size_t lb = i / 3, where = i % 3;  // outer, r, s
    bytes R = gen_key(r), Sx = gen_key(r);
    auto num = [&](const bytes &v, bool lf, size_t declared) {
      bytes o{2};
      if (!lf) o.push_back((uint8_t)declared);
      else {
        o.push_back((uint8_t)(0x80 | lb));
        for (size_t j = lb; j-- > 0;) o.push_back(j < 8 ? (uint8_t)(declared >> (8 * j)) : 0);
      }
      return cat(o, v);
    };
    for (int d = -2; d <= 2; d++) {
      bytes body = cat(num(R, where == 1, 32 + (where == 1 ? d : 0)), num(Sx, where == 2, 32 + (where == 2 ? d : 0)));
      bytes o{0x30};
      if (where == 0) { o.push_back((uint8_t)(0x80 | lb)); for (size_t j = lb; j-- > 0;) o.push_back(j < 8 ? (uint8_t)((body.size() + d) >> (8 * j)) : 0); }
      else o.push_back((uint8_t)body.size());
      bytes t = cat(o, body);
      judge(mk("signature_decode", {t}), "longform", i, random_mode(r));
      t.resize(r.below(t.size() + 1));
      judge(mk("signature_decode", {t}), "longform", i, random_mode(r));
      // a first length byte that makes the value enormous
      bytes big = o;
      if (where == 0 && lb) { bytes t2 = cat(o, body); t2[2] = (uint8_t)(0x80 | r.byte()); judge(mk("signature_decode", {t2}), "longform", i, random_mode(r)); }
    }
  });
  items("hugelength", 16 * 20 * 3, [&](Rng &r, uint64_t i) {
    // lengths near 2^31, 2^32, 2^63, 2^64 in r or s
    size_t lb = 1 + i % 16, off = i / 16 % 20, where = i / 320;
    bytes L(lb, 0xff);
    if (off < 10) { L[0] = (uint8_t)(off < 5 ? 0x80 : 0x7f); L.back() = (uint8_t)(0xff - off); }
    else L.back() = (uint8_t)(0xff - (off - 10) * 9);
    bytes R = gen_key(r), Sx = gen_key(r);
    bytes a = cat(cat(bytes{2, (uint8_t)(0x80 | lb)}, L), R), b = cat(bytes{2, 32}, Sx);
    if (where == 1) { a = cat(bytes{2, 32}, R); b = cat(cat(bytes{2, (uint8_t)(0x80 | lb)}, L), Sx); }
    bytes body = cat(a, b);
    bytes o{0x30, (uint8_t)body.size()};
    if (where == 2) o = cat(bytes{0x30, (uint8_t)(0x80 | lb)}, L);
    judge(mk("signature_decode", {cat(o, body)}), "hugelength", i, random_mode(r));
  });
  // r or s padded with zeros so that its length takes 1, 2 or 3 octets
  items("octets", 16 * 2 * 3, [&](Rng &r, uint64_t i) {
    static const size_t len[] = {33, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072, 1 << 20, (1 << 24) - 1, 1 << 24};
    size_t n = len[i % 16], extra = i / 32;
    bool ins = i / 16 & 1;
    bytes v = gen_key(r);
    if (r.chance(1, 4)) v[0] = 0;
    auto num = [&](const bytes &x) {
      bytes l, o{2};
      for (size_t z = x.size(); z; z >>= 8) l.insert(l.begin(), (uint8_t)z);
      if (x.size() < 128 && !extra) return cat(cat(o, l), x);
      l.insert(l.begin(), extra == 2 ? r.below(100) : extra, 0);
      o.push_back((uint8_t)(0x80 | l.size()));
      return cat(cat(o, l), x);
    };
    bytes pad = cat(bytes(n - 32, 0), v), t = cat(bytes{0x30, 0x80}, ins ? cat(num(gen_key(r)), num(pad)) : cat(num(pad), num(gen_key(r))));
    judge(mk("signature_decode", {t}), "octets", i, random_mode(r));
    t.pop_back();
    judge(mk("signature_decode", {t}), "octets", i, random_mode(r));
    stats.add("octet_lengths");
  });
  items("padding", 40 * 40, [&](Rng &r, uint64_t i) {
    size_t zr = i / 40, zs = i % 40;
    bytes R = cat(bytes(zr, 0), gen_key(r)), Sx = cat(bytes(zs, 0), gen_key(r));
    if (r.chance(1, 4)) R.resize(r.below(R.size() + 1));
    bytes body = cat(cat(bytes{2, (uint8_t)R.size()}, R), cat(bytes{2, (uint8_t)Sx.size()}, Sx));
    judge(mk("signature_decode", {cat(bytes{0x30, (uint8_t)(body.size() & 0x7f)}, body)}), "padding", i, random_mode(r));
    stats.add("padding_pairs");
  });
  items("range", 64 * 3, [&](Rng &r, uint64_t i) {  // r and s around n and above
    bytes v = ref::add_small(ref::N, (int64_t)(i / 3) - 32);
    if (i / 3 == 63) v = bytes(33, 0xff);
    if (i / 3 == 62) v = cat(bytes(1, 1), bytes(32, 0));
    bytes R = i % 3 == 1 ? gen_key(r) : v, Sx = i % 3 == 0 ? gen_key(r) : v;
    bytes body = cat(cat(bytes{2, (uint8_t)R.size()}, R), cat(bytes{2, (uint8_t)Sx.size()}, Sx));
    bytes t = cat(bytes{0x30, (uint8_t)body.size()}, body);
    judge(mk("signature_decode", {t}), "range", i, random_mode(r));
    // such a signature verifies nothing
    uint8_t sig[64];
    if (fingera_btc_signature_decode(t.data(), t.size(), sig)) {
      bytes k = gen_key(r), h = rnd(r, 32), rs, pub;
      ref::sig_lax(t, rs);
      secp256k1_pubkey p;
      bytes u = ref::pub_of(k, false);
      memset(&p, 0, sizeof p);
      if (!secp256k1_ec_pubkey_parse(secp256k1_context_static, &p, u.data(), u.size())) abort();
      stats.evaluations++;
      if ((fingera_btc_key_verify(&p, h.data(), sig) != 0) != ref::verify(u, h, rs)) violation("signature_decode:verifies", "decoded " + hexs(t));
    }
  });
  items("roundtrip", scaled(8000), [&](Rng &r, uint64_t i) {
    bytes rs = cat(gen_key(r), gen_key(r));
    if (r.chance(1, 3)) for (size_t z = 0, n = r.below(32); z < n; z++) rs[z] = 0;
    if (r.chance(1, 3)) for (size_t z = 0, n = r.below(32); z < n; z++) rs[32 + z] = 0;
    judge(mk("signature_encode", {rs}), "roundtrip", i, random_mode(r));
    judge(mk("signature_decode", {ref::sig_der(rs)}), "roundtrip", i, random_mode(r));
  });
}

static uint64_t gen_fp(Rng &r) { return r.chance(1, 4) ? 0 : (uint32_t)r.u64(); }
static void p_c18() {
  run_ops("C18", 2600, {{"exkey_init", 2}});
  items("seed", 300, [&](Rng &r, uint64_t i) { judge(mk("exkey_init", {gen_bytes(r, i)}), "seed", i, random_mode(r)); });
  // every child-number boundary, both branches
  items("child", 33 * 5, [&](Rng &r, uint64_t i) {
    uint64_t ch = (uint32_t)((i / 5 < 32 ? (1ull << (i / 5)) : 0) + (i % 5) - 2);
    bytes k = gen_key(r), code = rnd(r, 32);
    judge(mk("key_derive", {k, code}, {ch}), "child", i, random_mode(r));
    judge(mk("pubkey_derive", {ref::pub_of(k, true), code}, {ch}), "child", i, random_mode(r));
    judge(mk("exkey_derive", {k, code}, {i % 250, 7, 9, ch, 0x01020304}), "child", i, random_mode(r));
    judge(mk("expubkey_derive", {ref::pub_of(k, true), code}, {i % 250, 7, 9, ch, 0x01020304}), "child", i, random_mode(r));
  });
  items("depth", 256, [&](Rng &r, uint64_t i) {
    bytes k = gen_key(r), code = rnd(r, 32);
    for (uint64_t ch : {0ull, 5ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull}) {
      judge(mk("exkey_derive", {k, code}, {i, r.u64() & 0xffffffff, r.u64() & 0xffffffff, ch, r.u64() & 0xffffffff}), "depth", i, random_mode(r));
      judge(mk("expubkey_derive", {ref::pub_of(k, true), code}, {i, r.u64() & 0xffffffff, 1, ch, r.u64() & 0xffffffff}), "depth", i, random_mode(r));
    }
    stats.add("depths");
  });
  items("badparent", 256, [&](Rng &r, uint64_t i) {  // every first byte of the parent key
    bytes e = gen_pub(r, true), code = rnd(r, 32);
    e[0] = (uint8_t)i;
    uint64_t ch = r.u64() & 0x7fffffff;
    judge(mk("pubkey_derive", {e, code}, {ch}), "badparent", i, random_mode(r));
    judge(mk("expubkey_derive", {e, code}, {1, 2, 3, ch, 4}), "badparent", i, random_mode(r));
    for (int k = 1; k < 33; k++) e[k] = r.byte();
    e[0] = (uint8_t)(2 + (i & 1));
    judge(mk("pubkey_derive", {e, code}, {ch}), "badparent", i, random_mode(r));
    judge(mk("expubkey_derive", {e, code}, {1, 2, 3, ch, 4}), "badparent", i, random_mode(r));
  });
  // children whose tweak is out of range, zero, or cancels the parent
  items("tweak", scaled(400), [&](Rng &r, uint64_t i) {
    bytes k = gen_key(r), code = rnd(r, 32), P = ref::pub_of(k, true), t;
    switch (i % 12) {
      case 10: t = ref::scalar_add(special_key(r.below(special_keys())), ref::scalar_neg(k)); break;  // a rare child
      case 11: { bytes z = rnd(r, 32); for (size_t j = r.range(1, 31); j--;) z[j] = 0; t = ref::scalar_add(z, ref::scalar_neg(k)); break; }  // a short child
      case 0: t = ref::N; break;
      case 1: t = bytes(32, 0xff); break;
      case 2: case 3: t = ref::scalar_neg(k); break;  // the child would be zero or the point at infinity
      case 4: t = bytes(32, 0); break;                // the child is its parent
      case 5: t = ref::add_small(ref::N, (int64_t)r.below(5) - 2); break;
      case 6: t = ref::num32(1 + r.below(3)); break;
      case 7: t = ref::add_small(ref::scalar_neg(k), 1 + (int64_t)r.below(3)); break;  // tiny child
      case 8: t = k; break;                           // doubling
      default: t = rnd(r, 32); break;
    }
    uint64_t ch = r.u64() & 0x7fffffff, hard = ch | 0x80000000u;
    uint64_t d = r.below(255), fp = gen_fp(r), pf = gen_fp(r);
    struct Q { const char *op; bytes key; std::vector<uint64_t> n; } qs[] = {
        {"key_derive", k, {ch}}, {"key_derive", k, {hard}}, {"pubkey_derive", P, {ch}},
        {"exkey_derive", k, {d, pf, 9, ch, fp}}, {"exkey_derive", k, {d, pf, 9, hard, fp}}, {"expubkey_derive", P, {d, pf, 9, ch, fp}}};
    for (auto &q : qs) {
      Case c = mk(q.op, {q.key, code}, q.n);
      tweaks_forced = 0;
      ref::forced_tweak = t;
      set_case("tweak", i, c.text() + " tweak " + hexs(t));
      run_case(c, M, plain_mode(0));
      if (tweaks_forced) judge(c, "tweak", i, random_mode(r));
      else stats.add("derivations_whose_tweak_is_not_seen");
      ref::forced_tweak.clear();
      stats.add("tweaks_forced", tweaks_forced);
    }
  });
  // children searched for: hash halves or child keys with leading zero bytes
  items("rare", 32, [&](Rng &r, uint64_t i) {
    bytes k = gen_key(r), code = rnd(r, 32), P = ref::pub_of(k, true), body(P.begin() + 1, P.end());
    for (uint64_t n = 0; n < 4000; n++) {
      uint32_t ch = (uint32_t)(i * 4000 + n) | (i & 1 ? 0x80000000u : 0);
      bytes h = i & 1 ? ref::bip32_hash(code, ch, 0, k) : ref::bip32_hash(code, ch, P[0], body);
      bytes il(h.begin(), h.begin() + 32);
      if (h[0] && h[32] && h[31] && h[63] && (h[0] != 0xff || h[1] != 0xff)) {
        if (memcmp(il.data(), ref::N.data(), 32) >= 0) continue;
        if (ref::scalar_add(k, il)[0]) continue;
      }
      judge(mk("key_derive", {k, code}, {ch}), "rare", i, random_mode(r));
      if (!(i & 1)) judge(mk("pubkey_derive", {P, code}, {ch}), "rare", i, random_mode(r));
      stats.add("rare_children");
    }
  });
  items("rareseed", 32, [&](Rng &r, uint64_t i) {
    for (uint64_t n = 0; n < 4000; n++) {
      bytes seed = rnd(r, 16 + i % 49), h = ref::hmac512(B("Bitcoin seed"), seed);
      if (h[0] && h[32] && h[31] && h[63]) continue;
      if ((h[0] || h[1]) && (h[32] || h[33]) && n % 8) continue;
      judge(mk("exkey_init", {seed}), "rareseed", i, random_mode(r));
      stats.add("rare_seeds");
    }
  });
  // a key derived over its parent, wholly or in part, as loops over a path do
  items("over", scaled(900), [&](Rng &r, uint64_t i) {
    bytes k = gen_key(r), c = rnd(r, 32), nk, nc, P = ref::pub_of(k, true), nP, nPc;
    uint32_t ch = (uint32_t)(r.chance(1, 3) ? r.below(3) : r.u64());
    if (i & 1) ch &= 0x7fffffff; else ch |= 0x80000000u;
    if (!ref::ckd_priv(k, c, ch, nk, nc)) return;
    set_case("over", i, "key " + hexs(k) + " code " + hexs(c) + " child " + std::to_string(ch));
    for (int w = 0; w < 4; w++) {
      bytes a = k, b = c, o1(32, 0x3c), o2(32, 0x3c);
      uint8_t *ko = w & 1 ? a.data() : o1.data(), *co = w & 2 ? b.data() : o2.data();
      static const char *nm[] = {"apart", "key over key", "code over code", "both over their parents"};
      if (!fingera_btc_key_derive(a.data(), b.data(), ko, co, ch)) { violation("key_derive:over", std::string(nm[w]) + ": refused"); continue; }
      over("over", i, "key_derive", nm[w], ko, nk);
      over("over", i, "key_derive", nm[w], co, nc);
      if (ch >> 31) continue;
      if (!ref::ckd_pub(P, c, ch, nP, nPc)) continue;
      bytes p = P, q = c, o3(33, 0x3c), o4(32, 0x3c);
      uint8_t *po = w & 1 ? p.data() : o3.data(), *qo = w & 2 ? q.data() : o4.data();
      if (!fingera_btc_pubkey_derive(p.data(), q.data(), po, qo, ch)) { violation("pubkey_derive:over", std::string(nm[w]) + ": refused"); continue; }
      over("over", i, "pubkey_derive", nm[w], po, nP);
      over("over", i, "pubkey_derive", nm[w], qo, nPc);
    }
    fingera_ex_key x, y;
    memset(&x, 0, sizeof x);
    memcpy(x.key, k.data(), 32);
    memcpy(x.ext.chain_code, c.data(), 32);
    x.ext.depth = (uint8_t)r.below(255);
    x.ext.child = r.chance(1, 3) ? ch : (uint32_t)r.u64();
    x.ext.fingerprint = (uint32_t)r.u64();
    y = x;
    uint32_t fp = r.chance(1, 4) ? x.ext.fingerprint : r.chance(1, 4) ? ch : (uint32_t)r.u64();
    if (!fingera_exkey_derive(&y, &y, ch, fp)) violation("exkey_derive:over", "in place: refused");
    else {
      over("over", i, "exkey_derive", "in place", y.key, nk);
      over("over", i, "exkey_derive", "in place", (const uint8_t *)y.ext.chain_code, nc);
      if (y.ext.depth != x.ext.depth + 1 || y.ext.child != ch || y.ext.fingerprint != fp) violation("exkey_derive:over", "in place: depth, child number or fingerprint");
    }
    if (ch >> 31) return;
    fingera_ex_pubkey u;
    memset(&u, 0, sizeof u);
    memcpy(u.c_pubkey, P.data(), 33);
    u.ext = x.ext;
    if (!ref::ckd_pub(P, c, ch, nP, nPc)) return;
    if (!fingera_expubkey_derive(&u, &u, ch, fp)) violation("expubkey_derive:over", "in place: refused");
    else {
      over("over", i, "expubkey_derive", "in place", u.c_pubkey, nP);
      over("over", i, "expubkey_derive", "in place", (const uint8_t *)u.ext.chain_code, nPc);
      if (u.ext.depth != x.ext.depth + 1 || u.ext.child != ch || u.ext.fingerprint != fp) violation("expubkey_derive:over", "in place: depth, child number or fingerprint");
    }
  });
  // leading zero bytes in the parent scalar, hardened and not
  items("zeros", 32 * 4, [&](Rng &r, uint64_t i) {
    bytes k = gen_key(r), code = gen_bytes(r, 32);
    for (size_t z = 0; z < i / 4; z++) k[z] = 0;
    if (!ref::key_valid(k)) return;
    uint64_t ch = (i & 1 ? 0x80000000ull : 0) | r.below(100);
    judge(mk("key_derive", {k, code}, {ch}), "zeros", i, random_mode(r));
    judge(mk("exkey_derive", {k, code}, {0, 0, 0, ch, 1}), "zeros", i, random_mode(r));
    judge(mk("exkey_get_pub", {k, code}, {0, 0, 0}), "zeros", i, random_mode(r));
  });
  // whole paths through the library alone, checked against the reference level
  // by level, with the public branch run in parallel while it may
  items("path", scaled(500), [&](Rng &r, uint64_t i) {
    bytes seed = rnd(r, 16 + r.below(49));
    fingera_ex_key k;
    fingera_ex_pubkey p;
    fingera_exkey_init(&k, seed.data(), seed.size());
    fingera_exkey_get_pub(&k, &p);
    bytes h = ref::hmac512(B("Bitcoin seed"), seed), rk(h.begin(), h.begin() + 32), rc(h.begin() + 32, h.end());
    std::string path = "m";
    size_t n = 1 + r.below(r.chance(1, 12) ? 40 : 6);
    for (size_t lv = 0; lv < n; lv++) {
      uint32_t ch = (uint32_t)r.u64();
      if (r.chance(1, 2)) ch &= 0x7fffffff;
      path += "/" + std::to_string(ch);
      set_case("path", i, "seed " + hexs(seed) + " " + path);
      uint32_t fp = fingera_btc_key_fingerprint(k.key, 1), fp2 = fingera_btc_pubkey_fingerprint(p.c_pubkey);
      if (fp != fp2) violation("path:fingerprint", "private and public branch fingerprints differ");
      fingera_ex_key k2;
      fingera_ex_pubkey p2, p3;
      int ok = fingera_exkey_derive(&k, &k2, ch, fp);
      bytes nk, nc;
      bool want = ref::ckd_priv(rk, rc, ch, nk, nc);
      stats.evaluations++;
      if ((ok != 0) != want) { violation("path:refusal", "private derivation returned " + std::to_string(ok)); return; }
      if (!ok) return;
      if (memcmp(k2.key, nk.data(), 32) || memcmp(k2.ext.chain_code, nc.data(), 32) || k2.ext.depth != lv + 1 || k2.ext.child != ch || k2.ext.fingerprint != fp) violation("path:private", "level " + std::to_string(lv + 1) + " of the private branch");
      fingera_exkey_get_pub(&k2, &p2);
      int okp = fingera_expubkey_derive(&p, &p3, ch, fp);
      if (ch & 0x80000000u) {
        if (okp) violation("path:hardened", "public derivation of a hardened child accepted");
      } else if (!okp) violation("path:public", "public derivation refused");
      else if (memcmp(p2.c_pubkey, p3.c_pubkey, 33) || memcmp(p2.ext.chain_code, p3.ext.chain_code, 32) || p2.ext.depth != p3.ext.depth || p2.ext.child != p3.ext.child || p2.ext.fingerprint != p3.ext.fingerprint) violation("path:branches", "private and public branches disagree");
      bytes rp = ref::pub_of(nk, true);
      if (memcmp(p2.c_pubkey, rp.data(), 33)) violation("path:pubkey", "public key of the child is not the reference's");
      k = k2;
      p = p2;
      rk = nk;
      rc = nc;
      stats.add(ch & 0x80000000u ? "hardened_levels" : "normal_levels");
    }
    stats.nontrivial(fnv(rk.data(), 32));
  });
  // a whole chain down to the depth limit
  items("limit", 2, [&](Rng &r, uint64_t i) {
    fingera_ex_key k;
    bytes seed = rnd(r, 32);
    fingera_exkey_init(&k, seed.data(), 32);
    for (int lv = 0; lv < 260; lv++) {
      set_case("limit", i, "depth " + std::to_string(lv));
      fingera_ex_key n;
      fingera_ex_pubkey p, q;
      fingera_exkey_get_pub(&k, &p);
      int ok = fingera_exkey_derive(&k, &n, i ? 0x80000000u + lv : lv, 5);
      int okp = fingera_expubkey_derive(&p, &q, lv, 5);
      stats.evaluations++;
      if (lv < 255 ? !ok || n.ext.depth != lv + 1 : ok != 0) { violation("path:depth", "depth " + std::to_string(lv) + " private returned " + std::to_string(ok)); return; }
      if (lv < 255 ? !okp || q.ext.depth != lv + 1 : okp != 0) { violation("path:depth", "depth " + std::to_string(lv) + " public returned " + std::to_string(okp)); return; }
      if (!ok) return;
      k = n;
    }
  });
}

static void p_c19() {
  run_ops("C19", 4000, {{"exkey_from_string", 3}, {"expubkey_from_string", 3}});
  items("fields", scaled(2000), [&](Rng &r, uint64_t i) {
    // string form and back for both kinds, and each under the other's import
    ref::Params p = gen_params(r);
    ref::Ext e;
    e.depth = (uint8_t)i;
    e.fp = (uint32_t)r.u64();
    e.child = r.chance(1, 3) ? 1u << r.below(32) : (uint32_t)r.u64();
    e.code = gen_bytes(r, 32);
    bytes k = gen_key(r);
    bytes xprv = B(ref::b58c_enc(p.xprv, ref::ext_payload(e, cat(bytes(1, 0), k))));
    bytes xpub = B(ref::b58c_enc(p.xpub, ref::ext_payload(e, ref::pub_of(k, true))));
    auto imp = [&](const char *op, const bytes &t, const ref::Params &q) { Case c = mk(op, {t}); c.p = q; judge(c, "fields", i, random_mode(r)); };
    imp("exkey_from_string", xprv, p);
    imp("expubkey_from_string", xpub, p);
    imp("exkey_from_string", xpub, p);
    imp("expubkey_from_string", xprv, p);
    ref::Params q = gen_params(r);
    imp("exkey_from_string", xprv, q);
    imp("expubkey_from_string", xpub, q);
  });
  items("foreign", 40 * ref::B58C_KINDS, [&](Rng &r, uint64_t i) {  // checksums of another make
    ref::Params p = i & 1 ? gen_params(r) : ref::builtin((int)(i % 3));
    ref::Ext e;
    e.depth = r.byte();
    e.code = gen_bytes(r, 32);
    bytes k = gen_key(r);
    Case c = i / 2 & 1 ? mk("exkey_from_string", {B(ref::b58_enc(ref::b58c_foreign(cat(p.xprv, ref::ext_payload(e, cat(bytes(1, 0), k))), (int)(i % ref::B58C_KINDS))))})
                       : mk("expubkey_from_string", {B(ref::b58_enc(ref::b58c_foreign(cat(p.xpub, ref::ext_payload(e, ref::pub_of(k, true))), (int)(i % ref::B58C_KINDS))))});
    c.p = p;
    judge(c, "foreign", i, random_mode(r));
  });
  items("padbyte", 256 * 2, [&](Rng &r, uint64_t i) {  // every pad byte / every first key byte
    ref::Params p = i & 1 ? gen_params(r) : ref::builtin(0);
    ref::Ext e;
    e.code = rnd(r, 32);
    bytes k = gen_key(r);
    Case c = mk("exkey_from_string", {B(ref::b58c_enc(p.xprv, ref::ext_payload(e, cat(bytes(1, (uint8_t)(i / 2)), k))))});
    c.p = p;
    judge(c, "padbyte", i, random_mode(r));
    bytes q = gen_pub(r, true);
    q[0] = (uint8_t)(i / 2);
    c = mk("expubkey_from_string", {B(ref::b58c_enc(p.xpub, ref::ext_payload(e, q)))});
    c.p = p;
    judge(c, "padbyte", i, random_mode(r));
  });
  items("range", 64, [&](Rng &r, uint64_t i) {
    ref::Params p = gen_params(r);
    ref::Ext e;
    e.code = rnd(r, 32);
    bytes k = i < 40 ? ref::add_small(ref::N, (int64_t)i - 20) : ref::num32(i - 40);
    Case c = mk("exkey_from_string", {B(ref::b58c_enc(p.xprv, ref::ext_payload(e, cat(bytes(1, 0), k))))});
    c.p = p;
    judge(c, "range", i, random_mode(r));
    bytes x = ref::add_small(ref::P, (int64_t)i - 32);
    for (int pre : {2, 3}) {
      c = mk("expubkey_from_string", {B(ref::b58c_enc(p.xpub, ref::ext_payload(e, cat(bytes(1, (uint8_t)pre), x))))});
      c.p = p;
      judge(c, "range", i, random_mode(r));
      c = mk("expubkey_from_string", {B(ref::b58c_enc(p.xpub, ref::ext_payload(e, cat(bytes(1, (uint8_t)pre), rnd(r, 32)))))});
      c.p = p;
      judge(c, "range", i, random_mode(r));
    }
  });
  items("length", 160, [&](Rng &r, uint64_t i) {  // payloads of every length
    ref::Params p = i & 1 ? gen_params(r) : ref::builtin(0);
    ref::Ext e;
    e.code = rnd(r, 32);
    bytes k = gen_key(r);
    bytes a = ref::ext_payload(e, cat(bytes(1, 0), k)), b = ref::ext_payload(e, ref::pub_of(k, true));
    a.resize(i);
    b.resize(i);
    Case c = mk("exkey_from_string", {B(ref::b58c_enc(p.xprv, a))});
    c.p = p;
    judge(c, "length", i, random_mode(r));
    c = mk("expubkey_from_string", {B(ref::b58c_enc(p.xpub, b))});
    c.p = p;
    judge(c, "length", i, random_mode(r));
    for (const char *op : {"exkey_from_string", "expubkey_from_string"}) {
      c = mk(op, {bytes(i, '1')});
      c.p = p;
      judge(c, "length", i, random_mode(r));
    }
  });
  every_byte("damage_xprv", "exkey_from_string", scaled(6), [](Rng &r, uint64_t i) {
    ref::Ext e; e.depth = (uint8_t)i; e.code = rnd(r, 32);
    return B(ref::b58c_enc(ref::builtin(0).xprv, ref::ext_payload(e, cat(bytes(1, 0), gen_key(r)))));
  }, [](Case &c) { c.p = ref::builtin(0); });
  every_byte("damage_xpub", "expubkey_from_string", scaled(6), [](Rng &r, uint64_t i) {
    ref::Ext e; e.depth = (uint8_t)i; e.code = rnd(r, 32);
    return B(ref::b58c_enc(ref::builtin(0).xpub, ref::ext_payload(e, gen_pub(r, true))));
  }, [](Case &c) { c.p = ref::builtin(0); });
  // damage below the text level: one payload bit, checksum kept or recomputed
  items("bits", scaled(16), [&](Rng &r, uint64_t i) {
    const ref::Params &p = ref::builtin((int)(i % 3));
    ref::Ext e;
    e.code = rnd(r, 32);
    bytes k = gen_key(r);
    for (int pub = 0; pub < 2; pub++) {
      bytes raw = cat(pub ? p.xpub : p.xprv, ref::ext_payload(e, pub ? ref::pub_of(k, true) : cat(bytes(1, 0), k)));
      bytes h = ref::hash256(raw), full = cat(raw, bytes(h.begin(), h.begin() + 4));
      for (size_t b = 0; b < full.size() * 8; b++) {
        bytes x = full;
        x[b / 8] ^= (uint8_t)(1 << (b % 8));
        Case c = mk(pub ? "expubkey_from_string" : "exkey_from_string", {B(ref::b58_enc(x))});
        c.p = p;
        judge(c, "bits", i, plain_mode(b));
        if (b < raw.size() * 8) {
          bytes y(x.begin(), x.begin() + raw.size());
          c = mk(pub ? "expubkey_from_string" : "exkey_from_string", {B(ref::b58c_enc({}, y))});
          c.p = p;
          judge(c, "bits", i, plain_mode(b));
        }
      }
    }
  });
}

// --------------------------------------------------------------- C01, C02, C03
static void p_c01() {
  policy = MEMORY;
  // Every decoder on hostile inputs.  Whatever it answers, it must return,
  // inside its buffers, without a sanitizer report; the answers themselves are
  // compared as well, since a wrong length would be an overrun for the caller.
  for (auto &op : OPS) {
    if (!op.decoder || !runnable(&op)) continue;
    std::string sec = std::string("op.") + op.name;
    section(sec, scaled(4000), [&](Rng &r, uint64_t i) {
      Case c;
      c.op = &op;
      op.gen(r, c);
      if (r.chance(1, 2) && op.b_hostile()) c.b[0] = mutate(r, c.b[0], "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ+/=");
      // entirely unstructured bytes
      if (r.chance(1, 3) && op.b_hostile()) {
        size_t n = r.chance(1, 12) ? r.below(20000) : gen_len(r, 1500);
        if (strstr(op.name, "base58") || strstr(op.name, "string") || strstr(op.name, "address")) n = n > 4000 ? n % 4000 : n;
        switch (r.below(4)) {
          case 0: c.b[0] = gen_bytes(r, n); break;
          case 1: { static const char sp[] = "1=z \n0q\x80\xff"; c.b[0] = bytes(n, (uint8_t)sp[r.below(sizeof sp)]); break; }
          case 2: { static const char al[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"; c.b[0].resize(n); for (auto &x : c.b[0]) x = (uint8_t)al[r.below(58)]; break; }
          default: c.b[0].resize(n); for (auto &x : c.b[0]) x = (uint8_t)(r.chance(1, 10) ? r.byte() : r.range(32, 126)); break;
        }
      }
      if (!op.unspecified_in(c)) {
        MemMode mode = random_mode(r);
        if (r.chance(1, 4)) dirty(r);
        if (i < 1) stats.sample(c.text());
        judge(c, sec.c_str(), i, mode);
        stats.add(c.b.size() && c.b[0].size() > 200 ? "inputs_over_200_bytes" : "inputs_up_to_200_bytes");
      }
    });
    if (opt.shard == 0) stats.needs.push_back({std::string("op:") + op.name, 1});
    // constant strings of every length
    std::string sc = std::string("const.") + op.name;
    if (op.b_hostile())
      section(sc, 9 * 260, [&](Rng &r, uint64_t i) {
        static const uint8_t v[] = {'1', '=', ' ', 0, 0x80, 0xff, 'q', '0', 'z'};
        Case c;
        c.op = &op;
        op.gen(r, c);
        c.b[0] = bytes(i / 9, v[i % 9]);
        if (op.unspecified_in(c)) return;
        judge(c, sc.c_str(), i, random_mode(r));
      });
  }
  // dumps long enough to fill its line buffer many times over
  section("longdump", 24, [&](Rng &r, uint64_t i) {
    size_t n = i < 8 ? 9000 + 997 * i : i < 16 ? r.range(20000, 60000) : r.range(100000, 400000);
    judge(mk("hex_dump", {rnd(r, n)}, {i & 1}), "longdump", i, random_mode(r));
    stats.add("long_dumps");
  });
  // really long texts (rel build: base58 is quadratic)
  static const struct { const char *op; size_t n; } L[] = {{"from_hex", 3000000}, {"from_base32", 3000000}, {"from_base32_raw", 3000000}, {"from_base64", 3000000}, {"from_base64_urlsafe", 3000000}, {"from_base58", 9000}, {"from_base58_check", 9000}, {"bech32_decode", 100000}, {"address_decode", 9000}, {"key_from_string", 9000}, {"exkey_from_string", 9000}, {"expubkey_from_string", 9000}, {"key_decode", 100000}, {"signature_decode", 100000}, {"pubkey_decode", 100000}, {"decode_varint", 100000}};
  section("verylong", 16 * 2, [&](Rng &r, uint64_t i) {
    Case c;
    c.op = op_by_name(L[i % 16].op);
    c.op->gen(r, c);
    static const char al[] = "abcdefghijkmnopqrstuvwxyz234567";
    c.b[0].resize(L[i % 16].n);
    for (auto &x : c.b[0]) x = i < 16 ? (uint8_t)al[r.below(31)] : (strcmp(c.op->name, "from_base32_raw") ? '1' : 7);
    if (!strcmp(c.op->name, "from_base32_raw")) for (auto &x : c.b[0]) x &= 31;
    judge(c, "verylong", i, random_mode(r));
    stats.add("very_long_inputs");
  });
}

static void p_c02() {
  static uint64_t more = 0;
  M.poison = false;   // an over-read counts here when it changes an answer (or hits a guard page)
  // The same bytes in several surroundings: every answer must be the same.
  for (auto &op : OPS) {
    if (!runnable(&op)) continue;
    std::string sec = std::string("ctx.") + op.name;
    bool ec = strstr(op.props, "C13") || strstr(op.props, "C15") || strstr(op.props, "C16") || strstr(op.props, "C18") || strstr(op.props, "C19");
    section(sec, scaled(ec ? 500 : 1500), [&](Rng &r, uint64_t i) {
      Case c;
      c.op = &op;
      op.gen(r, c);
      set_case(sec.c_str(), i, c.text());
      stats.nontrivial(c.hash());
      std::string first;
      MemMode fm;
      // surroundings: neighbours 0 / ff / text that could extend the input /
      // random, left or right against a guard page, several alignments, clean
      // or dirty stack, perturbed heap
      static const uint8_t fills[] = {0x00, 0xff, '=', '1', 'q', ' ', 0xA5, 0x30};
      for (int k = 0; k < 8; k++) {
        MemMode mode;
        mode.right = k == 3 || k == 6;
        mode.fill = fills[(k + i) % 8];
        mode.neighbour = k == 4 ? 2 : k == 5 ? 1 : 0;
        mode.skew = mode.right ? 0 : 64 + (unsigned)((k * 5 + i) % 16);
        mode.seed = r.u64();
        dirty_stack(k & 1 ? 0xff : (k & 2 ? 0x31 : 0), k == 7 ? r.u64() | 1 : 0);
        if (!sanitized) mallopt(M_PERTURB, k & 1 ? 0xff : (k & 2 ? 0x31 : 0x80 + k));
        std::string got = run_case(c, M, mode);
        stats.evaluations++;
        stats.add("contexts");
        if (k == 0) { first = got; fm = mode; continue; }
        if (got != first) {
          violation(std::string(op.name) + ":context", "context 0: " + shorten(first, 500) + " | context " + std::to_string(k) + ": " + shorten(got, 500));
          break;
        }
      }
      // a wrong answer may be wrong because of its surroundings: look harder
      if (first != ref_case(c)) {
        stats.add("answers_wrong_in_other_ways");
        if (more++ < 200)
          for (int k = 0; k < 64; k++) {
            MemMode mode = random_mode(r);
            if (k < 32) { mode.right = false; mode.fill = (uint8_t)(k * 8 + i); mode.neighbour = k % 3; mode.skew = 32 + (unsigned)r.below(40); }
            dirty_stack((uint8_t)r.byte(), k & 1 ? r.u64() | 1 : 0);
            if (!sanitized) mallopt(M_PERTURB, r.byte());
            std::string got = run_case(c, M, mode);
            stats.evaluations++;
            if (got == first) continue;
            violation(std::string(op.name) + ":context", "in one context: " + shorten(first, 500) + " | in another: " + shorten(got, 500));
            break;
          }
      }
      stats.add(std::string("op:") + op.name);
      if (i < 1) stats.sample(c.text());
    });
    if (opt.shard == 0) stats.needs.push_back({std::string("op:") + op.name, 1});
  }
  // the same question after an unrelated one and after a near-identical one
  for (auto &op : OPS) {
    if (!runnable(&op)) continue;
    std::string sec = std::string("after.") + op.name;
    bool ec = strstr(op.props, "C13") || strstr(op.props, "C15") || strstr(op.props, "C16") || strstr(op.props, "C18") || strstr(op.props, "C19");
    section(sec, scaled(ec ? 120 : 300), [&](Rng &r, uint64_t i) {
      Case c, d, e;
      c.op = e.op = &op;
      op.gen(r, c);
      op.gen(r, e);
      if (!neighbour_of(r, c, d)) return;
      set_case(sec.c_str(), i, d.text());
      MemMode mode = random_mode(r);
      mode.right = true;
      run_case(e, M, mode);
      std::string before = run_case(d, M, mode);
      run_case(e, M, mode);
      run_case(c, M, mode);
      std::string after = run_case(d, M, mode);
      stats.evaluations += 5;
      stats.add("questions_after_a_near_identical_one");
      if (before != after) violation(std::string(op.name) + ":history", "after an unrelated call: " + shorten(before, 500) + " | after a call that differs in one place: " + shorten(after, 500));
    });
  }
  // a text inside a larger text decodes like a stand-alone copy: the larger
  // text continues with characters of the same alphabet
  for (auto &op : OPS) {
    if (!op.decoder || !op.b_hostile() || !runnable(&op)) continue;
    std::string sec = std::string("view.") + op.name;
    section(sec, scaled(1000), [&](Rng &r, uint64_t i) {
      Case c, d;
      c.op = d.op = &op;
      op.gen(r, c);
      op.gen(r, d);
      set_case(sec.c_str(), i, c.text());
      MemMode mode;
      mode.right = false;
      mode.skew = 64 + (unsigned)r.below(64);
      mode.seed = r.u64();
      M.views = &d.b[0];   // neighbours taken from another input of this operation
      std::string inside = run_case(c, M, mode);
      M.views = nullptr;
      mode.right = true;
      std::string alone = run_case(c, M, mode);
      stats.evaluations += 2;
      stats.nontrivial(c.hash() ^ 1);
      stats.add("views_into_larger_text");
      if (inside != alone) violation(std::string(op.name) + ":view", "inside a larger text: " + shorten(inside, 500) + " | alone: " + shorten(alone, 500));
    });
  }
}

static void p_c03() {
  policy = SIZES;
  // Buffers of exactly the announced size, canaries on both sides, each case
  // with two different prefills so that unwritten bytes show.
  for (auto &op : OPS) {
    if (!runnable(&op)) continue;
    std::string sec = std::string("exact.") + op.name;
    bool ec = strstr(op.props, "C13") || strstr(op.props, "C15") || strstr(op.props, "C16") || strstr(op.props, "C18") || strstr(op.props, "C19");
    section(sec, scaled(ec ? 1500 : 6000), [&](Rng &r, uint64_t i) {
      Case c;
      c.op = &op;
      op.gen(r, c);
      set_case(sec.c_str(), i, c.text());
      std::string want = ref_case(c), first;
      for (int k = 0; k < 3; k++) {
        MemMode mode;
        mode.right = k != 2;
        mode.fill = k == 0 ? 0x00 : k == 1 ? 0xff : 0xA5;
        mode.neighbour = k == 2 ? 1 : 0;
        mode.skew = k == 2 ? 64 + (unsigned)r.below(9) : 0;
        mode.seed = r.u64();
        std::string got = run_case(c, M, mode);
        stats.evaluations++;
        if (k == 0) first = got;
        if (got != first) { violation(std::string(op.name) + ":unwritten", "in one buffer " + shorten(first, 600) + " | in another " + shorten(got, 600)); break; }
        if (got != want && blames(c, got, want)) { violation(std::string(op.name) + ":bounds", "got " + shorten(got, 600) + " | want " + shorten(want, 600)); break; }
      }
      stats.nontrivial(c.hash());
      stats.add(std::string("op:") + op.name);
      if (i < 1) stats.sample(c.text());
    });
    if (opt.shard == 0) stats.needs.push_back({std::string("op:") + op.name, 1});
  }
  // every length of every variable-size encoder
  static const char *enc[] = {"to_hex", "to_base32", "to_base32_raw", "to_base64", "to_base64_urlsafe", "to_base58"};
  section("lengths", 520, [&](Rng &r, uint64_t i) {
    for (const char *e : enc)
      for (int k = 0; k < 3; k++) {
        bytes d = k == 0 ? bytes(i, 0) : k == 1 ? bytes(i, 0xff) : rnd(r, i);
        judge(mk(e, {d}, strstr(e, "hex") ? std::vector<uint64_t>{0} : std::vector<uint64_t>{}), "lengths", i, plain_mode(k * 2 + 1));
      }
    bytes d = rnd(r, i);
    auto dec = [&](const char *op, const bytes &t) { judge(mk(op, {t}), "lengths", i, plain_mode(1)); };
    dec("from_hex", B(ref::hex_enc(d, true)));
    dec("from_base32", B(ref::b32_enc(d)));
    dec("from_base32_raw", ref::b32_raw_enc(d));
    dec("from_base64", B(ref::b64_enc(d, false)));
    dec("from_base64_urlsafe", B(ref::b64_enc(d, true)));
    dec("from_base58", B(ref::b58_enc(d)));
    dec("from_base58", bytes(i, '1'));
    dec("from_base58", bytes(i, 'z'));
    dec("from_base58_check", B(ref::b58c_enc({}, d)));
    dec("from_base58_check", B(ref::b58c_enc({}, bytes(i, 0))));
    for (size_t pre : {0, 1, 4, 9}) {
      judge(mk("to_base58_check", {d, rnd(r, pre)}), "lengths", i, plain_mode(1));
      judge(mk("to_base58_check", {bytes(i, 0), bytes(pre, 0)}), "lengths", i, plain_mode(1));
      judge(mk("to_base58_check", {bytes(i, 0xff), bytes(pre, 0xff)}), "lengths", i, plain_mode(1));
    }
    stats.add("lengths_swept");
  });
  // What the length functions announce for sizes no buffer here can have: a
  // caller with that much memory relies on it like any other.
  section("announced", 4000, [&](Rng &r, uint64_t i) {
    size_t n;
    if (i < 1200) {   // around every power of two, and three halves of it
      unsigned e = 4 + (unsigned)(i / 30) % 40;
      n = ((size_t)1 << e) + (i & 1 ? ((size_t)1 << e) / 2 : 0) + (i % 30) / 2 - 7;
    } else
      n = r.below((uint64_t)1 << r.range(20, 47));
    set_case("announced", i, "size " + std::to_string(n));
    stats.evaluations++;
    stats.add(n >> 32 ? "announced_for_over_4GiB" : "announced_for_up_to_4GiB");
    auto exact = [&](const char *f, size_t got, size_t want) {
      if (got != want) violation(std::string(f) + ":announced", "for " + std::to_string(n) + " announces " + std::to_string(got) + ", exactly " + std::to_string(want) + " are written");
    };
    auto room = [&](const char *f, size_t got, size_t need) {
      if (got < need) violation(std::string(f) + ":announced", "for " + std::to_string(n) + " announces " + std::to_string(got) + ", up to " + std::to_string(need) + " are written");
    };
#define BOTH(kind, f, args, want) kind(#f, f args, want), kind(#f " in C", c_##f args, want)
    BOTH(exact, fingera_to_hex_length, (n), 2 * n);
    BOTH(room, fingera_from_hex_length, (n), n / 2);
    BOTH(exact, fingera_to_base32_length, (n), (n / 5 + (n % 5 != 0)) * 8);
    static const size_t t8[] = {0, 0, 1, 0, 2, 3, 0, 4}, t4[] = {0, 0, 1, 2}, u3[] = {0, 2, 3};
    room("fingera_from_base32_raw_length", fingera_from_base32_raw_length(n), n / 8 * 5 + t8[n % 8]);
    BOTH(exact, fingera_to_base64_length, (n), (n / 3 + (n % 3 != 0)) * 4);
    BOTH(exact, fingera_to_base64_urlsafe_length, (n), n / 3 * 4 + u3[n % 3]);
    BOTH(room, fingera_from_base64_urlsafe_length, (n), n / 4 * 3 + t4[n % 4]);
    // 256^n has at most ceil(n * log 256 / log 58) digits; the quotient is 1.36565823730976...
    auto b58 = [](size_t k) { return (size_t)((unsigned __int128)k * 136565823730ull / 100000000000ull); };
    BOTH(room, fingera_to_base58_length, (n), b58(n) + 1);
    BOTH(room, fingera_from_base58_length, (n), n);
    size_t pre = r.below(200);
    BOTH(room, fingera_to_base58_check_length, (n, pre), b58(n + pre + 4) + 1);
    BOTH(room, fingera_to_base58_check_length, (pre, n), b58(n + pre + 4) + 1);
    BOTH(room, fingera_from_base58_check_length, (n), n);
    BOTH(exact, fingera_bech32_encode_length, (n, pre), n + pre + 7);
    BOTH(exact, fingera_bech32_encode_length, (pre, n), n + pre + 7);
#undef BOTH
    {
      std::string t(i % 64, 'Q');
      for (size_t k = 0; k < i / 64 % 4 && k < t.size(); k++) t[t.size() - 1 - k] = '=';
      size_t a = fingera_from_base64_length(t.data(), t.size()), b = c_fingera_from_base64_length(t.data(), t.size()), pads = std::min<size_t>(2, t.size() - std::min(t.size(), t.find('='))), m = t.size() - pads;
      room("fingera_from_base64_length", a, m / 4 * 3 + t4[m % 4]);
      room("fingera_from_base64_length in C", b, m / 4 * 3 + t4[m % 4]);
    }
    room("fingera_key_string_max_length in C", c_fingera_key_string_max_length(), fingera_key_string_max_length());
    room("fingera_exkey_string_max_length in C", c_fingera_exkey_string_max_length(), fingera_exkey_string_max_length());
    if (n >> 32) stats.nontrivial(n);
  });
  // every capacity 0..max+2 of the functions that take one
  section("capacity", 130, [&](Rng &r, uint64_t cap) {
    for (int rep = 0; rep < 6; rep++) {
      ref::Params p = rep < 3 ? ref::builtin(rep) : gen_params(r);
      auto go = [&](const char *op, const bytes &in) {
        Case c = mk(op, {in}, {cap});
        c.p = p;
        judge(c, "capacity", cap, plain_mode(rep | 1));
        judge(c, "capacity", cap, plain_mode(4));
        stats.add("capacities_tried");
      };
      bytes h20 = rep & 1 ? bytes(20, 0) : gen_bytes(r, 20), h32 = gen_bytes(r, 32);
      go("address_pubkey", h20);
      go("address_script", h20);
      go("address_pubkey", bytes(20, 0xff));
      go("address_script", gen_bytes(r, r.below(90)));
      go("address_w0key", h20);
      go("address_w0script", h32);
      for (size_t l : {2, 3, 20, 32, 39, 40}) go("address_witness", cat(bytes(1, (uint8_t)r.range(1, 16)), gen_bytes(r, l)));
      std::vector<std::string> t = {ref::addr_pk(h20, p), ref::addr_sc(h20, p), ref::addr_segwit(0, h20, p), ref::addr_segwit(0, h32, p), ref::addr_pk(gen_bytes(r, r.below(100)), p)};
      for (size_t l : {2, 3, 20, 39, 40}) t.push_back(ref::addr_segwit((int)r.range(1, 16), gen_bytes(r, l), p));
      for (auto &s : t) go("address_decode", B(s));
      // hrp capacity of the bech32 decoder
      std::string h(1 + cap % 83, 'a');
      for (uint64_t hc : {(uint64_t)0, (uint64_t)h.size() - 1, (uint64_t)h.size(), (uint64_t)h.size() + 1}) judge(mk("bech32_decode", {B(ref::bech_enc(h, bytes((83 - h.size()) ? r.below(83 - h.size()) : 0, 3)))}, {hc}), "capacity", cap, plain_mode(1));
    }
  });
}

// C23 under AddressSanitizer: use after free, double free and invalid free abort.
static void p_c23() {
  for (auto &op : OPS) {
    if (!runnable(&op)) continue;
    std::string sec = std::string("asan.") + op.name;
    section(sec, scaled(600), [&](Rng &r, uint64_t i) {
      Case c;
      c.op = &op;
      op.gen(r, c);
      set_case(sec.c_str(), i, c.text());
      run_case(c, M, random_mode(r));
      stats.evaluations++;
      stats.nontrivial(c.hash());
    });
  }
  section("asan.cycles", 40, [&](Rng &, uint64_t i) {
    set_case("asan.cycles", i, "uninitialise / initialise");
    fingera_btc_key_uninit();
    fingera_btc_key_init();
    stats.evaluations++;
  });
}

// ------------------------------------------------------------------- C24 ----
static void p_c24() {
  // A transcript of answers: one digest per case, compared across builds by run.py.
  FILE *f = fopen((opt.outdir + "/transcript.bin").c_str(), "wb");
  for (auto &op : OPS) {
    if (op.needs_ndebug) continue;
    std::string sec = std::string("op.") + op.name;
    bool ec = strstr(op.props, "C13") || strstr(op.props, "C15") || strstr(op.props, "C16") || strstr(op.props, "C18") || strstr(op.props, "C19");
    section(sec, scaled(ec ? 700 : 2500), [&](Rng &r, uint64_t i) {
      Case c;
      c.op = &op;
      op.gen(r, c);
      MemMode mode = random_mode(r);
      dirty(r);
      set_case(sec.c_str(), i, c.text());
      std::string got = run_case(c, M, mode) + case_detail;
      uint64_t h = fnvs(got), at = fnvs(sec);
      fwrite(&at, 8, 1, f);
      fwrite(&i, 8, 1, f);
      fwrite(&h, 8, 1, f);
      stats.evaluations++;
      stats.nontrivial(c.hash());
      stats.add(std::string("op:") + op.name);
      if (i < 1) stats.sample(c.text());
      if (opt.replay) fprintf(stderr, "RESULT %s\n", got.c_str());
    });
  }
  fclose(f);
}

void giant(const std::string &prop);

int main(int argc, char **argv) {
  core_init(argc, argv);
  ndebug_build = opt.extra.find("ndebug") != std::string::npos;
  sanitized = opt.extra.find("asan") != std::string::npos;
  ops_init();
  fingera_btc_key_init();
  const std::string &p = opt.prop;
  static const struct { const char *id; void (*f)(); } T[] = {
      {"C01", p_c01}, {"C02", p_c02}, {"C03", p_c03}, {"C04", p_c04}, {"C05", p_c05}, {"C06", p_c06}, {"C07", p_c07},
      {"C08", p_c08}, {"C09", p_c09}, {"C10", p_c10}, {"C11", p_c11}, {"C12", p_c12}, {"C13", p_c13}, {"C14", p_c14},
      {"C15", p_c15}, {"C16", p_c16}, {"C17", p_c17}, {"C18", p_c18}, {"C19", p_c19}, {"C23", p_c23}, {"C24", p_c24}};
  if (opt.extra.find("giant") != std::string::npos) { giant(p); core_finish(); }
  if (opt.extra.find("big_hmac") != std::string::npos) { big_hmac(); core_finish(); }
  if (opt.extra.find("big_large") != std::string::npos) { big_hashes(false); core_finish(); }
  if (opt.extra.find("big_huge") != std::string::npos) { big_hashes(true); core_finish(); }
  for (auto &t : T)
    if (p == t.id) {
      t.f();
      core_finish();
    }
  fprintf(stderr, "unknown property %s\n", p.c_str());
  return 2;
}
