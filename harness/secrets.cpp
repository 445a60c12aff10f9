// C21: what a call leaves behind.  Each call runs on a private, painted stack;
// afterwards the whole stack is searched for copies of the call's secrets.
// Blocks are searched when they are freed.
#include "ops.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <sys/mman.h>
#include <link.h>
#include <ucontext.h>

extern "C" {
#include <fingera_libc/base58.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/random.h>
#include <secp256k1.h>

uint32_t victim_local(const uint8_t *, size_t);
uint32_t victim_struct(const uint8_t *, size_t);
uint32_t victim_heap(const uint8_t *, size_t);
uint32_t victim_vla(const uint8_t *, size_t);

void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

// -------------------------------------------------------------- patterns ----
// 16-byte windows of the secrets, found through their first four bytes.
static const size_t WIN = 16;
struct Win { uint8_t b[WIN]; int what; };
static std::vector<Win> wins;
static std::vector<std::string> what;
static uint8_t *const bloom = (uint8_t *)mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
static size_t bh(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return (v * 2654435761u) >> 16; }

static void forget() { for (auto &w : wins) bloom[bh(w.b)] = 0; wins.clear(); what.clear(); }
static void secret_bytes(const std::string &name, const uint8_t *p, size_t n) {
  what.push_back(name);
  for (size_t i = 0; i + WIN <= n; i++) {
    std::set<uint8_t> d(p + i, p + i + WIN);
    if (d.size() < 8) continue;
    Win w;
    memcpy(w.b, p + i, WIN);
    w.what = (int)what.size() - 1;
    wins.push_back(w);
    bloom[bh(w.b)] = 1;
  }
}
static void secret_bytes(const std::string &name, const bytes &b) { secret_bytes(name, b.data(), b.size()); }
static bytes swapped(const bytes &b, size_t w) {
  bytes o;
  for (size_t i = 0; i + w <= b.size(); i += w) for (size_t k = 0; k < w; k++) o.push_back(b[i + w - 1 - k]);
  return o;
}
// a secret and the forms hash code keeps it in
static void secret(const std::string &name, const bytes &b, bool words = true) {
  secret_bytes(name, b);
  if (words) {
    secret_bytes(name + " (as 32-bit words)", swapped(b, 4));
    secret_bytes(name + " (as 64-bit words)", swapped(b, 8));
  }
}
static bytes xored(const bytes &b, uint8_t x, size_t to) {
  bytes o = b;
  o.resize(to, 0);
  for (auto &c : o) c ^= x;
  return o;
}
static void secret_digits(const std::string &name, const std::string &text) {
  static const char *A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
  bytes d;
  for (char c : text) { const char *p = strchr(A, c); d.push_back(p ? (uint8_t)(p - A) : 0xFF); }
  secret_bytes(name + " (as base58 digits)", d);
}

// nullptr or the description of the first secret found in [p, p+n)
static const char *search(const uint8_t *p, size_t n, size_t *off = nullptr) {
  if (n < WIN) return nullptr;
  for (size_t i = 0; i + WIN <= n; i++) {
    uint64_t v;
    memcpy(&v, p + i, 8);
    if (!v) { i += 7; continue; }   // zeros here: the windows from the other end find it
    if (!bloom[bh(p + i)]) continue;
    for (auto &w : wins)
      if (!memcmp(w.b, p + i, WIN)) {
        if (off) *off = i;
        return what[w.what].c_str();
      }
  }
  return nullptr;
}

// ------------------------------------------------------ interposed allocator ----
static const size_t LIVE = 64;
static bool armed;
static struct { void *p; size_t n; } live[LIVE];
static size_t freed_blocks, freed_bytes;
static const char *heap_hit;
static size_t heap_hit_size;

static void note(void *p, size_t n) {
  if (!armed || !p) return;
  for (auto &l : live) if (!l.p) { l.p = p; l.n = n; return; }
}
static void gone(void *p) {
  if (!armed || !p) return;
  for (auto &l : live)
    if (l.p == p) {
      freed_blocks++;
      freed_bytes += l.n;
      const char *h = search((uint8_t *)p, l.n);
      if (h && !heap_hit) { heap_hit = h; heap_hit_size = l.n; }
      l.p = nullptr;
      return;
    }
}
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); note(p, n); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); note(p, a * b); return p; }
void *realloc(void *p, size_t n) {
  if (!armed) return __libc_realloc(p, n);
  void *q = malloc(n);
  if (!q || !p) return q;
  size_t old = 0;
  for (auto &l : live) if (l.p == p) old = l.n;
  memcpy(q, p, old < n ? old : n);
  gone(p);
  __libc_free(p);
  return q;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); note(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); note(p, n); return p; }
int posix_memalign(void **o, size_t a, size_t n) { *o = __libc_memalign(a, n); note(*o, n); return *o ? 0 : ENOMEM; }
void free(void *p) { gone(p); __libc_free(p); }
}

// ---------------------------------------------------------- private stacks ----
static const size_t STACK = 256 * 1024;
static uint8_t *stack_mem, *side_mem;
static ucontext_t main_ctx, call_ctx, caller_ctx, side_ctx;
static void (*body_fn)();
static void trampoline() { body_fn(); }
static uint8_t paint = 0x5E;

// libsecp256k1's own work runs on another stack, so that only this library's
// frames are judged.
static void (*side_fn)();
static void side_trampoline() { side_fn(); }
static bool on_private;
static void on_side(void (*f)()) {
  if (!on_private) { f(); return; }
  side_fn = f;
  getcontext(&side_ctx);
  side_ctx.uc_stack.ss_sp = side_mem;
  side_ctx.uc_stack.ss_size = STACK;
  side_ctx.uc_link = &caller_ctx;
  makecontext(&side_ctx, side_trampoline, 0);
  swapcontext(&caller_ctx, &side_ctx);
}
static const void *A0, *A1, *A2, *A3, *A4, *A5;
static int IR;
extern "C" {
int __real_secp256k1_context_randomize(secp256k1_context *, const unsigned char *);
int __wrap_secp256k1_context_randomize(secp256k1_context *c, const unsigned char *s) {
  A0 = c; A1 = s;
  on_side([] { IR = __real_secp256k1_context_randomize((secp256k1_context *)A0, (const unsigned char *)A1); });
  return IR;
}
int __real_secp256k1_ecdsa_sign(const secp256k1_context *, secp256k1_ecdsa_signature *, const unsigned char *, const unsigned char *, secp256k1_nonce_function, const void *);
int __wrap_secp256k1_ecdsa_sign(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *h, const unsigned char *k, secp256k1_nonce_function f, const void *d) {
  A0 = c; A1 = s; A2 = h; A3 = k; A4 = (const void *)f; A5 = d;
  on_side([] { IR = __real_secp256k1_ecdsa_sign((const secp256k1_context *)A0, (secp256k1_ecdsa_signature *)A1, (const unsigned char *)A2, (const unsigned char *)A3, (secp256k1_nonce_function)A4, A5); });
  return IR;
}
}

// Captures what the system's random source delivered.
static bytes drawn;
static bool capture;
extern "C" ssize_t read(int fd, void *buf, size_t n) {
  static ssize_t (*real)(int, void *, size_t);
  if (!real) real = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
  ssize_t r = real(fd, buf, n);
  if (capture && r > 0 && drawn.size() + r <= drawn.capacity()) drawn.insert(drawn.end(), (uint8_t *)buf, (uint8_t *)buf + r);
  return r;
}

// Memory of the program that outlives calls: its variables, and those of this
// thread.  (`g` holds the arguments.)
extern "C" { extern char __data_start, _end; }
static struct Globals { const uint8_t *arg_lo, *arg_hi, *tls; size_t tls_n; } statics;
static void find_statics(const void *args, size_t n) {
  statics.arg_lo = (const uint8_t *)args;
  statics.arg_hi = statics.arg_lo + n;
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) -> int {
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { statics.tls = (const uint8_t *)i->dlpi_tls_data; statics.tls_n = i->dlpi_phdr[k].p_memsz; }
    return 1;   // the program itself comes first
  }, nullptr);
}
static uint64_t statics_searched;
static const char *search_statics() {
  const uint8_t *lo = (const uint8_t *)&__data_start, *hi = (const uint8_t *)&_end;
  const char *h = search(lo, (size_t)(statics.arg_lo - lo));
  if (!h) h = search(statics.arg_hi, (size_t)(hi - statics.arg_hi));
  if (!h && statics.tls) h = search(statics.tls, statics.tls_n);
  statics_searched += (size_t)(hi - lo) + statics.tls_n;
  return h;
}

static uint64_t deepest;
// Runs f on the painted stack; patterns may be completed by `late` once the
// outputs are known.
static void watch(const std::string &key, void (*f)(), const std::function<void()> &late = nullptr) {
  memset(stack_mem, paint, STACK);
  heap_hit = nullptr;
  memset(live, 0, sizeof(live));
  body_fn = f;
  getcontext(&call_ctx);
  call_ctx.uc_stack.ss_sp = stack_mem;
  call_ctx.uc_stack.ss_size = STACK;
  call_ctx.uc_link = &main_ctx;
  makecontext(&call_ctx, trampoline, 0);
  // Secrets known beforehand are looked for in freed blocks during the call;
  // those only known afterwards need a second, identical run.
  armed = on_private = true;
  swapcontext(&main_ctx, &call_ctx);
  armed = on_private = false;
  if (late) late();
  size_t lo = 0;
  while (lo < STACK && stack_mem[lo] == paint) lo++;
  deepest = std::max<uint64_t>(deepest, STACK - lo);
  stats.evaluations++;
  stats.add("calls:" + key);
  stats.add("stack_bytes_searched", STACK - lo);
  if (wins.empty()) stats.add("calls_without_patterns");
  stats.nontrivial(fnvs(key, fnv(wins.data(), wins.size() * sizeof(Win))));
  size_t off = 0;
  const char *h = search(stack_mem + lo, STACK - lo, &off);
  if (h) violation(key + ":stack", std::string("a copy of ") + h + " is left " + std::to_string(STACK - lo - off) + " bytes below the caller's frame (build " + opt.variant + ")");
  const char *kept = search_statics();
  stats.add("searches_of_static_memory");
  if (kept) violation(key + ":static", std::string("a copy of ") + kept + " is kept in static or thread-local memory (build " + opt.variant + ")");
  if (heap_hit) violation(key + ":heap", std::string("a block of ") + std::to_string(heap_hit_size) + " bytes was freed with a copy of " + heap_hit + " (build " + opt.variant + ")");
}
// Outputs first (unwatched run), then the watched run with all patterns known.
static void watch2(const std::string &key, void (*f)(), const std::function<void()> &outputs) {
  f();
  outputs();
  watch(key, f);
}

// ------------------------------------------------------------------ calls ----
// The arguments live in static storage: no harness copies on the stack.
static struct {
  uint8_t in[4096], in2[4096], out[8192], out2[512];
  char str[8192];
  size_t n, n2, r, ns;
  int flag, ret;
  uint32_t child;
  chain_parameters p;
  fingera_ex_key ek, dk;
} g;

static bytes rnd(Rng &r, size_t n) { bytes b(n); for (auto &x : b) x = r.byte(); return b; }
static bytes payload(Rng &r, size_t n) {  // a secret, sometimes with leading zeros
  bytes b = rnd(r, n);
  if (r.chance(1, 5)) for (size_t i = 0, z = r.below(std::min<size_t>(n, 5) + 1); i < z; i++) b[i] = 0;
  return b;
}
static size_t secret_len(Rng &r) {
  static const size_t e[] = {16, 20, 31, 32, 33, 34, 37, 40, 63, 64, 65, 74, 78, 82, 86, 89, 90, 91, 92, 93, 94, 95, 96, 110, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 160, 200, 255, 256, 300, 400};
  return r.chance(2, 3) ? e[r.below(sizeof(e) / sizeof(*e))] : r.range(16, 420);
}
static void put(const bytes &b) { memcpy(g.in, b.data(), b.size()); g.n = b.size(); }
static void puts_(const std::string &s) { memcpy(g.str, s.data(), s.size()); g.ns = s.size(); }

static chain_parameters *net(Rng &r) {
  static chain_parameters *n[] = {&g_mainnet_chain_parameters, &g_testnet_chain_parameters, &g_regnet_chain_parameters};
  return n[r.below(3)];
}

static void key_case(Rng &r, uint64_t i) {
  forget();
  bytes key = gen_key(r), chain = rnd(r, 32);
  while (std::set<uint8_t>(key.begin(), key.end()).size() < 20) key = gen_key(r);
  memcpy(g.in, key.data(), 32);
  memcpy(g.in2, chain.data(), 32);
  chain_parameters *np = net(r);
  g.p = *np;
  g.flag = (int)r.below(2);
  int kind = (int)(i % 15);
  char t[64];
  snprintf(t, 64, "kind %d key ", kind);
  set_case("keys", i, t + hexs(key));
  switch (kind) {
    case 0: {  // WIF export
      secret("the key", key);
      watch2("key_to_string", [] { g.ns = fingera_btc_key_to_string(g.in, g.str, g.flag, &g.p); },
             [&] { std::string s(g.str, g.ns); secret_bytes("the WIF text", B(s)); secret_digits("the WIF text", s); });
      break;
    }
    case 1: case 2: {  // WIF import: good, wrong network, bad checksum, bad padding, bad scalar, extra text
      int how = (int)r.below(8);
      bytes raw(g.p.prefix_secret_key, g.p.prefix_secret_key + g.p.prefix_secret_key_size);
      if (how == 1) raw[0] ^= 0x40;
      bytes k = key;
      if (how == 2) { k.assign(32, 0xFF); for (int z = 16; z < 32; z++) k[z] = r.byte(); }  // above the order
      raw.insert(raw.end(), k.begin(), k.end());
      if (g.flag) raw.push_back(how == 3 ? 2 : 1);
      if (how == 4) { bytes x = rnd(r, r.range(1, 80)); raw.insert(raw.end(), x.begin(), x.end()); }
      std::string s = ref::b58c_enc({}, raw);
      if (how == 5) s[r.below(s.size())] ^= 1;       // often an illegal symbol or a bad checksum
      if (how == 6) s.back() = s.back() == 'a' ? 'b' : 'a';
      if (how == 7) s = "  " + s + std::string(r.below(200), ' ');
      if (how == 7 && r.chance(1, 2)) s += " 1";   // text after the closing blank
      puts_(s);
      secret("the key", k);
      std::string core = s;
      secret_bytes("the WIF text", B(core));
      secret_digits("the WIF text", core);
      stats.add("wif_import_shape:" + std::to_string(how));
      watch("key_from_string", [] { g.ret = fingera_btc_key_from_string(g.str, g.ns, g.out, &g.flag, &g.p); });
      stats.add(g.ret ? "wif_import:accepted" : "wif_import:refused");
      break;
    }
    case 3: {  // xprv export
      secret("the key", key);
      secret("the chain code", chain);
      memcpy(g.ek.key, key.data(), 32);
      memcpy(g.ek.ext.chain_code, chain.data(), 32);
      g.ek.ext.depth = r.byte(); g.ek.ext.child = (uint32_t)r.u64(); g.ek.ext.fingerprint = (uint32_t)r.u64();
      watch2("exkey_to_string", [] { g.ns = fingera_exkey_to_string(&g.ek, g.str, &g.p); },
             [&] { std::string s(g.str, g.ns); secret_bytes("the xprv text", B(s)); secret_digits("the xprv text", s); });
      break;
    }
    case 4: case 5: {  // xprv import
      int how = (int)r.below(8);
      bytes raw(g.p.prefix_ext_secret_key, g.p.prefix_ext_secret_key + g.p.prefix_ext_secret_key_size);
      if (how == 1) raw[raw.size() - 1] ^= 0x11;
      bytes k = key;
      if (how == 2) { k.assign(32, 0xFF); for (int z = 16; z < 32; z++) k[z] = r.byte(); }
      bytes head = rnd(r, 9);
      raw.insert(raw.end(), head.begin(), head.end());
      raw.insert(raw.end(), chain.begin(), chain.end());
      raw.push_back(how == 3 ? 1 : 0);
      raw.insert(raw.end(), k.begin(), k.end());
      if (how == 4) { bytes x = rnd(r, r.range(1, 80)); raw.insert(raw.end(), x.begin(), x.end()); }
      std::string s = ref::b58c_enc({}, raw);
      if (how == 5) s[r.below(s.size())] ^= 1;
      if (how == 6) s.back() = s.back() == 'a' ? 'b' : 'a';
      if (how == 7) s = "\n" + s + std::string(r.below(100), ' ');
      if (how == 7 && r.chance(1, 2)) s += "\tz";
      puts_(s);
      secret("the key", k);
      secret("the chain code", chain);
      secret_bytes("the xprv text", B(s));
      secret_digits("the xprv text", s);
      watch("exkey_from_string", [] { g.ret = fingera_exkey_from_string(g.str, g.ns, &g.dk, &g.p); });
      stats.add(g.ret ? "xprv_import:accepted" : "xprv_import:refused");
      break;
    }
    case 6: case 7: {  // private derivation, and with a scalar that must be refused
      bool bad = r.chance(1, 4);
      g.child = (uint32_t)r.u64();
      if (bad) { g.child |= 0x80000000u; memset(g.in, 0xFF, 16); key.assign(g.in, g.in + 32); }
      secret("the key", key);
      secret("the chain code", chain);
      bytes x;
      if (g.child >> 31) { x.push_back(0); x.insert(x.end(), key.begin(), key.end()); }
      else x = ref::pub_of(key, true);
      for (int s = 24; s >= 0; s -= 8) x.push_back((uint8_t)(g.child >> s));
      bytes mac = ref::hmac512(chain, x);
      secret("the derivation hash", mac);
      secret_bytes("the inner pad", xored(chain, 0x36, 128).data(), 32);
      secret_bytes("the outer pad", xored(chain, 0x5c, 128).data(), 32);
      if (r.chance(1, 2)) {
        watch2("key_derive", [] { g.ret = fingera_btc_key_derive(g.in, g.in2, g.out, g.out2, g.child); },
               [&] { if (g.ret) { secret("the child key", bytes(g.out, g.out + 32)); } });
      } else {
        memcpy(g.ek.key, g.in, 32);
        memcpy(g.ek.ext.chain_code, g.in2, 32);
        g.ek.ext.depth = r.chance(1, 8) ? 255 : (uint8_t)r.below(255);
        watch2("exkey_derive", [] { g.ret = fingera_exkey_derive(&g.ek, &g.dk, g.child, 7); },
               [&] { if (g.ret) { secret("the child key", bytes(g.dk.key, g.dk.key + 32)); } });
      }
      stats.add(g.ret ? "derive:accepted" : "derive:refused");
      break;
    }
    case 8: case 9: {  // master key from a seed
      bytes seed = rnd(r, r.chance(1, 2) ? 16 * r.range(1, 4) : secret_len(r));
      put(seed);
      secret("the seed", seed);
      bytes mac = ref::hmac512(B("Bitcoin seed"), seed);
      secret("the master key", mac);
      watch("exkey_init", [] { fingera_exkey_init(&g.ek, g.in, g.n); });
      break;
    }
    case 10: {
      secret("the key", key);
      secret("the chain code", chain);
      g.child = (uint32_t)r.u64();
      bytes x(1, 0);
      x.insert(x.end(), key.begin(), key.end());
      for (int s = 24; s >= 0; s -= 8) x.push_back((uint8_t)(g.child >> s));
      secret("the derivation hash", ref::hmac512(chain, x));
      secret_bytes("the inner pad", xored(chain, 0x36, 128).data(), 32);
      secret_bytes("the outer pad", xored(chain, 0x5c, 128).data(), 32);
      watch("bip32_hash", [] { fingera_btc_bip32_hash(g.in2, g.child, 0, g.in, g.out); });
      break;
    }
    case 11: {
      memcpy(g.ek.key, key.data(), 32);
      memcpy(g.ek.ext.chain_code, chain.data(), 32);
      secret("the key", key);
      secret("the chain code", chain);
      watch("exkey_encode", [] { fingera_exkey_encode(&g.ek, g.out); });
      watch("exkey_decode", [] { fingera_exkey_decode(g.out, &g.dk); });
      break;
    }
    case 12: {
      secret("the key", key, false);
      g.n = g.flag ? 214 : 279;
      watch("key_encode", [] { g.ret = fingera_btc_key_encode(g.in, g.out, g.n); });
      watch("key_decode", [] { g.ret = fingera_btc_key_decode(g.out, g.n, g.out2); });
      g.out[r.below(9)] ^= 1;
      watch("key_decode_damaged", [] { g.ret = fingera_btc_key_decode(g.out, g.n, g.out2); });
      break;
    }
    case 13: {
      secret("the key", key, false);
      watch("key_get_pub", [] { fingera_btc_key_get_pub(g.in, g.out); });
      watch("key_keyid", [] { fingera_btc_key_keyid(g.in, g.flag, g.out); });
      watch("key_fingerprint", [] { g.child = fingera_btc_key_fingerprint(g.in, g.flag); });
      watch("key_sign", [] { fingera_btc_key_sign(g.in, g.in2, g.out); });
      break;
    }
    default: {
      watch("key_new", [] { fingera_btc_key_new(g.out); }, [&] { secret("the new key", bytes(g.out, g.out + 32), false); });
      forget();
      g.n = secret_len(r);
      watch("os_rand_bytes", [] { fingera_os_rand_bytes(g.out, g.n); }, [&] { secret("the random bytes", bytes(g.out, g.out + g.n), false); });
      forget();
      // context seeding
      drawn.clear();
      drawn.reserve(4096);
      capture = true;
      watch("key_init", [] { fingera_btc_key_uninit(); fingera_btc_key_init(); }, [&] { capture = false; secret("the context seed", drawn, false); stats.add("seed_bytes_seen", drawn.size()); });
      capture = false;
    }
  }
}

static void codec_case(Rng &r, uint64_t i) {
  forget();
  bytes b = payload(r, secret_len(r));
  put(b);
  std::string text;
  set_case("codecs", i, std::to_string(i % 4) + " " + hexs(b));
  secret_bytes("the secret", b);
  switch (i % 4) {
    case 0:
      watch2("to_base58", [] { g.ns = fingera_to_base58(g.in, g.n, g.str); },
             [&] { std::string s(g.str, g.ns); secret_bytes("the text", B(s)); secret_digits("the text", s); });
      break;
    case 1: {
      std::string s = ref::b58_enc(b);
      if (r.chance(1, 3)) {  // refused on the way: what was decoded so far must go too
        size_t at = r.chance(1, 3) ? s.size() : r.below(s.size() + 1);
        bytes part;
        if (ref::b58_dec(s.substr(0, at), part)) secret_bytes("the part decoded so far", part);
        s.insert(at, r.chance(1, 4) ? std::string(" 1") : std::string(1, "0OIl+/_\xff"[r.below(8)]));
      } else if (r.chance(1, 4)) s = " " + s + " \n";
      puts_(s);
      secret_bytes("the text", B(s));
      secret_digits("the text", s);
      watch("from_base58", [] { g.r = fingera_from_base58(g.str, g.ns, g.out); });
      stats.add(g.r ? "base58:accepted" : "base58:refused");
      break;
    }
    case 2: {
      g.n2 = r.below(9);
      memcpy(g.in2, rnd(r, 9).data(), 9);
      watch2("to_base58_check", [] { g.ns = fingera_to_base58_check(g.in, g.n, g.in2, g.n2, g.str); },
             [&] { std::string s(g.str, g.ns); secret_bytes("the text", B(s)); secret_digits("the text", s); });
      break;
    }
    default: {
      std::string s = ref::b58c_enc({}, b);
      if (r.chance(1, 3)) { size_t k = r.below(s.size()); s[k] = s[k] == 'a' ? 'b' : 'a'; }
      puts_(s);
      secret_bytes("the text", B(s));
      secret_digits("the text", s);
      watch("from_base58_check", [] { g.r = fingera_from_base58_check(g.str, g.ns, g.out); });
      stats.add(g.r ? "base58check:accepted" : "base58check:refused");
    }
  }
}

static void hash_case(Rng &r, uint64_t i) {
  forget();
  size_t n = r.chance(1, 3) ? r.range(16, 140) : secret_len(r);
  bytes b = rnd(r, n);
  put(b);
  set_case("hashes", i, std::to_string(i % 8) + " " + hexs(b));
  secret("the message", b);
  switch (i % 8) {
    case 0: secret("the digest", ref::sha1(b)); watch("sha1", [] { fingera_sha1(g.in, g.n, g.out); }); break;
    case 1: secret("the digest", ref::sha256(b)); watch("sha2_256", [] { fingera_sha2_256(g.in, g.n, g.out); }); break;
    case 2: secret("the digest", ref::sha512(b)); watch("sha2_512", [] { fingera_sha2_512(g.in, g.n, g.out); }); break;
    case 3: secret("the digest", ref::rmd160(b)); watch("ripemd160", [] { fingera_ripemd160(g.in, g.n, g.out); }); break;
    case 4: secret("the digest", ref::sha256(ref::sha256(b))); watch("hash256", [] { fingera_btc_hash256(g.in, g.n, g.out); }); break;
    default: {
      bytes k = rnd(r, r.chance(1, 4) ? r.range(129, 300) : r.range(16, 132));
      memcpy(g.in2, k.data(), k.size());
      g.n2 = k.size();
      secret("the HMAC key", k);
      bool big = (i % 8) < 7 && (i % 2);
      size_t block = big ? 128 : 64;
      bytes kb = k.size() > block ? (big ? ref::sha512(k) : ref::sha256(k)) : k;
      if (k.size() > block) secret("the hashed HMAC key", kb);
      // beyond the key the pads are constant bytes, which is no secret
      secret("the inner key pad", xored(kb, 0x36, kb.size()));
      secret("the outer key pad", xored(kb, 0x5c, kb.size()));
      bytes in = xored(kb, 0x36, block);
      in.insert(in.end(), b.begin(), b.end());
      secret("the inner hash", big ? ref::sha512(in) : ref::sha256(in));
      secret("the HMAC", big ? ref::hmac512(k, b) : ref::hmac256(k, b));
      if (big) watch("hmac_sha512", [] { fingera_hmac_sha512(g.in2, g.n2, g.in, g.n, g.out); });
      else watch("hmac_sha256", [] { fingera_hmac_sha256(g.in2, g.n2, g.in, g.n, g.out); });
    }
  }
}

static uint32_t victim_sum;
static void erase_case(Rng &r, uint64_t i) {
  forget();
  // exactness: whatever was there, the same bytes are left; nothing else changes
  size_t n = i < 600 ? (size_t)i : (r.chance(1, 6) ? r.range(1000, 200000) : r.range(0, 4096));
  set_case("erase", i, std::to_string(n));
  bytes a = rnd(r, n), b(n);
  for (size_t k = 0; k < n; k++) b[k] = (uint8_t)~a[k];
  Mem m;
  bytes after[2];
  for (int v = 0; v < 2; v++) {
    MemMode mode = random_mode(r);
    m.begin(mode);
    uint8_t *p = m.inout(v ? b : a);
    fingera_cleanse(p, n);
    stats.evaluations++;
    std::string bad = m.check();
    if (!bad.empty()) violation("cleanse:outside", bad);
    after[v].assign(p, p + n);
  }
  if (after[0] != after[1]) {
    size_t k = 0;
    while (after[0][k] == after[1][k]) k++;
    violation("cleanse:incomplete", "byte " + std::to_string(k) + " of " + std::to_string(n) + " still depends on what it held");
  }
  stats.add("calls:cleanse", 2);
  // dead objects
  bytes s = rnd(r, r.range(16, 96));
  put(s);
  secret("the erased object", s);
  switch (i % 4) {
    case 0: watch("dead_local", [] { victim_sum += victim_local(g.in, g.n); }); break;
    case 1: watch("dead_struct", [] { victim_sum += victim_struct(g.in, g.n); }); break;
    case 2: watch("dead_heap", [] { victim_sum += victim_heap(g.in, g.n); }); break;
    default: watch("dead_vla", [] { victim_sum += victim_vla(g.in, g.n); }); break;
  }
}

// The monitor must see what is planted: a copy on the stack and one in a freed
// block.  If it does not, nothing it says counts.
static __attribute__((noinline)) void leaky() {
  volatile uint8_t copy[64];
  for (size_t i = 0; i < 32; i++) copy[i] = g.in[i];
  uint8_t *h = (uint8_t *)malloc(48);
  memcpy(h, g.in, 32);
  __asm__ __volatile__("" : : "r"(h) : "memory");
  free(h);
}
static uint8_t kept_static[40];
static thread_local uint8_t kept_tls[40];
static void self_test(Rng &r, uint64_t) {
  forget();
  bytes b = rnd(r, 32);
  put(b);
  secret_bytes("planted", b);
  memset(stack_mem, paint, STACK);
  heap_hit = nullptr;
  memset(live, 0, sizeof(live));
  body_fn = leaky;
  getcontext(&call_ctx);
  call_ctx.uc_stack.ss_sp = stack_mem;
  call_ctx.uc_stack.ss_size = STACK;
  call_ctx.uc_link = &main_ctx;
  makecontext(&call_ctx, trampoline, 0);
  armed = true;
  swapcontext(&main_ctx, &call_ctx);
  armed = false;
  if (search(stack_mem, STACK)) stats.add("planted_stack_copy_seen");
  if (heap_hit) stats.add("planted_heap_copy_seen");
  if (!search_statics()) stats.add("clean_statics_seen");
  volatile uint8_t *v[] = {kept_static, kept_tls};
  const char *k[] = {"planted_static_copy_seen", "planted_thread_local_copy_seen"};
  for (int z = 0; z < 2; z++) {
    for (int j = 0; j < 32; j++) v[z][5 + j] = b[j];
    if (search_statics()) stats.add(k[z]);
    for (int j = 0; j < 40; j++) v[z][j] = 0;
  }
}

int main(int argc, char **argv) {
  core_init(argc, argv);
  ops_init();
  Arena *a = new Arena(STACK), *b = new Arena(STACK);
  stack_mem = a->base;
  side_mem = b->base;
  cur->section[0] = 0;
  find_statics(&g, sizeof g);
  fingera_btc_key_init();
  uint64_t s = opt.scale;
  section("selftest", 8, self_test);
  section("keys", 15 * s, key_case);
  section("codecs", 12 * s, codec_case);
  section("hashes", 16 * s, hash_case);
  section("erase", 600 + 4 * s, erase_case);
  stats.add("freed_blocks_searched", freed_blocks);
  stats.add("freed_bytes_searched", freed_bytes);
  stats.add("static_bytes_searched", statics_searched);
  stats.add("secret_outputs_summed", victim_sum & 1);
  if (opt.shard == 0 && !opt.replay) {
    for (const char *k : {"planted_stack_copy_seen", "planted_heap_copy_seen", "clean_statics_seen", "planted_static_copy_seen", "planted_thread_local_copy_seen"}) stats.needs.push_back({k, 8});
    stats.needs.push_back({"freed_blocks_searched", 100});
    for (const char *k : {"wif_import:accepted", "wif_import:refused", "xprv_import:accepted", "xprv_import:refused", "derive:accepted", "derive:refused", "base58:accepted", "base58:refused",
                          "base58check:accepted", "base58check:refused", "calls:key_init", "calls:dead_local", "calls:hmac_sha512", "calls:hmac_sha256", "seed_bytes_seen"})
      stats.needs.push_back({k, 1});
  }
  stats.sample("deepest stack use " + std::to_string(deepest) + " bytes in build " + opt.variant);
  core_finish();
}
