// C29: what a call costs.  Each kind of call runs on a private painted stack
// (how deep it went), under an interposed allocator (the most it held), against
// the thread's clock (how the time grows with the input).
#include "ops.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <time.h>
#include <ucontext.h>

extern "C" {
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/chain_parameters.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
#include <fingera_libc/random.h>

void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
}

// ------------------------------------------------------------- the heap ----
static bool armed;
static size_t held, peak, blocks;
static void took(void *p) {
  if (!armed || !p) return;
  held += malloc_usable_size(p);
  blocks++;
  if (held > peak) peak = held;
}
static void gave(void *p) {
  if (!armed || !p) return;
  size_t n = malloc_usable_size(p);
  held -= n < held ? n : held;
}
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); took(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); took(p); return p; }
void *realloc(void *p, size_t n) { gave(p); void *q = __libc_realloc(p, n); took(q); return q; }
void free(void *p) { gave(p); __libc_free(p); }
}

namespace {
// ------------------------------------------------------------ the stack ----
const size_t STACK = 192 * 1024, GUARD = (size_t)1 << 32;   // a deep jump lands in the guard
uint8_t *stack_mem;
ucontext_t main_ctx, call_ctx;
const std::function<void()> *body;
void trampoline() { (*body)(); }
struct Cost { size_t stack, heap; double time; };

double now() { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

Cost run(const std::function<void()> &f) {
  memset(stack_mem, 0x5e, STACK);
  body = &f;
  getcontext(&call_ctx);
  call_ctx.uc_stack.ss_sp = stack_mem;
  call_ctx.uc_stack.ss_size = STACK;
  call_ctx.uc_link = &main_ctx;
  makecontext(&call_ctx, trampoline, 0);
  held = peak = 0;
  armed = true;
  double t0 = now();
  swapcontext(&main_ctx, &call_ctx);
  double t1 = now();
  armed = false;
  size_t lo = 0;
  while (lo < STACK && *(const uint64_t *)(stack_mem + lo) == 0x5e5e5e5e5e5e5e5eull) lo += 8;
  stats.evaluations++;
  return {STACK - lo, peak, t1 - t0};
}

// ------------------------------------------------------- kinds of calls ----
struct Kind {
  const char *name;
  bool square;    // base58 proper: time grows with the square
  std::function<void(Rng &, size_t, bytes &)> make;
  std::function<void(const bytes &, uint8_t *, size_t)> call;   // output room: 4 n + 4096
  size_t limit;   // largest size
};
const chain_parameters *CP = &g_mainnet_chain_parameters;
const char *T(const bytes &b) { return (const char *)b.data(); }
char *O(uint8_t *o) { return (char *)o; }

void fill(Rng &r, size_t n, bytes &b) { b.resize(n); for (size_t i = 0; i < n; i += 8) { uint64_t v = r.u64(); memcpy(&b[i], &v, n - i < 8 ? n - i : 8); } }
std::function<void(Rng &, size_t, bytes &)> text(const char *alphabet) {
  std::string a = alphabet;
  return [a](Rng &r, size_t n, bytes &b) { fill(r, n, b); for (auto &x : b) x = (uint8_t)a[x % a.size()]; };
}
std::function<void(Rng &, size_t, bytes &)> same(uint8_t c) { return [c](Rng &, size_t n, bytes &b) { b.assign(n, c); }; }
// `inner` at the start or end of n bytes of white space
std::function<void(Rng &, size_t, bytes &)> spaced(const std::string &inner, bool before, char last = 0) {
  return [=](Rng &, size_t n, bytes &b) {
    b.assign(n, ' ');
    if (n < inner.size()) return;
    memcpy(&b[before ? n - inner.size() : 0], inner.data(), inner.size());
    if (last && n > inner.size()) b[n - 1] = (uint8_t)last;
  };
}
// damaged at one place
std::function<void(Rng &, size_t, bytes &)> damaged(std::function<void(Rng &, size_t, bytes &)> f, int where) {
  return [=](Rng &r, size_t n, bytes &b) { f(r, n, b); if (n) b[where == 0 ? 0 : where == 1 ? n / 2 : n - 1] = '*'; };
}
#define CALL [](const bytes & b, uint8_t * o, size_t room)
const char B58A[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz", B64S[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
           B64U[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", B32A[] = "abcdefghijklmnopqrstuvwxyz234567", BECH[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

std::vector<Kind> kinds() {
  const size_t BIG = (size_t)4 << 20, SQ = 6000;
  std::vector<Kind> k = {
      {"to_hex", false, fill, CALL { fingera_to_hex(b.data(), b.size(), O(o), 1); }, BIG},
      {"from_hex", false, text("0123456789abcdefABCDEF"), CALL { fingera_from_hex(T(b), b.size(), o); }, BIG},
      {"from_hex damaged", false, damaged(text("0123456789abcdefABCDEF"), 2), CALL { fingera_from_hex(T(b), b.size(), o); }, BIG},
      {"to_base32", false, fill, CALL { fingera_to_base32(b.data(), b.size(), O(o)); }, BIG},
      {"to_base32_raw", false, fill, CALL { fingera_to_base32_raw(b.data(), b.size(), o); }, BIG},
      {"from_base32", false, text(B32A), CALL { fingera_from_base32_length(T(b), b.size()); fingera_from_base32(T(b), b.size(), o); }, BIG},
      {"from_base32 of padding", false, same('='), CALL { fingera_from_base32_length(T(b), b.size()); fingera_from_base32(T(b), b.size(), o); }, BIG},
      {"from_base32 damaged", false, damaged(text(B32A), 1), CALL { fingera_from_base32_length(T(b), b.size()); fingera_from_base32(T(b), b.size(), o); }, BIG},
      {"from_base32_raw", false, [](Rng &r, size_t n, bytes &b) { fill(r, n, b); for (auto &x : b) x &= 31; }, CALL { fingera_from_base32_raw(b.data(), b.size(), o); }, BIG},
      {"to_base64", false, fill, CALL { fingera_to_base64(b.data(), b.size(), O(o)); }, BIG},
      {"to_base64_urlsafe", false, fill, CALL { fingera_to_base64_urlsafe(b.data(), b.size(), O(o)); }, BIG},
      {"from_base64", false, text(B64S), CALL { fingera_from_base64(T(b), b.size(), o); }, BIG},
      {"from_base64 of padding", false, same('='), CALL { fingera_from_base64_length(T(b), b.size()); fingera_from_base64(T(b), b.size(), o); }, BIG},
      {"from_base64 damaged", false, damaged(text(B64S), 1), CALL { fingera_from_base64(T(b), b.size(), o); }, BIG},
      {"from_base64_urlsafe", false, text(B64U), CALL { fingera_from_base64_urlsafe(T(b), b.size(), o); }, BIG},
      {"sha1", false, fill, CALL { fingera_sha1(b.data(), b.size(), o); }, BIG},
      {"sha256", false, fill, CALL { fingera_sha2_256(b.data(), b.size(), o); }, BIG},
      {"sha512", false, fill, CALL { fingera_sha2_512(b.data(), b.size(), o); }, BIG},
      {"ripemd160", false, fill, CALL { fingera_ripemd160(b.data(), b.size(), o); }, BIG},
      {"hmac_sha256 message", false, fill, CALL { fingera_hmac_sha256("key", 3, b.data(), b.size(), o); }, BIG},
      {"hmac_sha256 key", false, fill, CALL { fingera_hmac_sha256(b.data(), b.size(), "msg", 3, o); }, BIG},
      {"hmac_sha512 message", false, fill, CALL { fingera_hmac_sha512("key", 3, b.data(), b.size(), o); }, BIG},
      {"hmac_sha512 key", false, fill, CALL { fingera_hmac_sha512(b.data(), b.size(), "msg", 3, o); }, BIG},
      {"hash160", false, fill, CALL { fingera_btc_hash160(b.data(), b.size(), o); }, BIG},
      {"hash256", false, fill, CALL { fingera_btc_hash256(b.data(), b.size(), o); }, BIG},
      {"hash256_d64", false, fill, CALL { fingera_btc_hash256_d64(o, b.data(), b.size() / 64); }, BIG},
      {"cleanse", false, fill, CALL { fingera_cleanse(o, b.size()); }, BIG},
      {"decode_varint", false, same(0x80), CALL { uint64_t v; fingera_decode_varint(b.data(), b.size(), &v); }, BIG},
      {"decode_zigzag", false, same(0xff), CALL { int64_t v; fingera_decode_zigzag(b.data(), b.size(), &v); }, BIG},
      {"bech32_encode data", false, [](Rng &r, size_t n, bytes &b) { fill(r, n, b); for (auto &x : b) x &= 31; }, CALL { fingera_bech32_encode("bc", 2, b.data(), b.size(), O(o)); }, BIG},
      {"bech32_encode prefix", false, text("abcdefgh"), CALL { fingera_bech32_encode(T(b), b.size(), (const uint8_t *)"\1\2", 2, O(o)); }, BIG},
      {"bech32_decode", false, text(BECH), CALL { size_t h = room; fingera_bech32_decode(T(b), b.size(), O(o), &h, o + room / 2); }, BIG},
      {"bech32_decode of ones", false, same('1'), CALL { size_t h = room; fingera_bech32_decode(T(b), b.size(), O(o), &h, o + room / 2); }, BIG},
      {"to_base58 of zeros", false, same(0), CALL { fingera_to_base58(b.data(), b.size(), O(o)); }, BIG},
      {"from_base58 of ones", false, same('1'), CALL { fingera_from_base58(T(b), b.size(), o); }, BIG},
      {"from_base58 of white space", false, same(' '), CALL { fingera_from_base58(T(b), b.size(), o); }, BIG},
      {"from_base58 before white space", false, spaced("zzzzz", false), CALL { fingera_from_base58(T(b), b.size(), o); }, BIG},
      {"from_base58 behind white space", false, spaced("zzzzz", true), CALL { fingera_from_base58(T(b), b.size(), o); }, BIG},
      {"from_base58 of junk", false, same('0'), CALL { fingera_from_base58(T(b), b.size(), o); }, BIG},
      {"from_base58_check of ones", false, same('1'), CALL { fingera_from_base58_check(T(b), b.size(), o); }, BIG},
      {"to_base58", true, fill, CALL { fingera_to_base58(b.data(), b.size(), O(o)); }, SQ},
      {"from_base58", true, text(B58A), CALL { fingera_from_base58(T(b), b.size(), o); }, SQ},
      {"to_base58_check", true, fill, CALL { fingera_to_base58_check(b.data(), b.size(), "x", 1, O(o)); }, SQ},
      {"from_base58_check", true, text(B58A), CALL { fingera_from_base58_check(T(b), b.size(), o); }, SQ},
      {"address_pubkey", true, fill, CALL { fingera_to_address_pubkey(b.data(), b.size(), O(o), room, CP); }, SQ},
      {"address_script without room", true, fill, CALL { fingera_to_address_script(b.data(), b.size(), O(o), 5, CP); }, SQ},
      {"address_decode", true, text(B58A), CALL { size_t n = room; fingera_btc_address_decode(T(b), b.size(), o, &n, CP); }, SQ},
      {"address_decode of ones", false, same('1'), CALL { size_t n = room; fingera_btc_address_decode(T(b), b.size(), o, &n, CP); }, BIG},
      {"address_decode of white space", false, spaced("1BoatSLRHtKNngkdXEeobR76b53LETtpyT", false), CALL { size_t n = room; fingera_btc_address_decode(T(b), b.size(), o, &n, CP); }, BIG},
      {"address_decode of bech32 junk", false, [](Rng &r, size_t n, bytes &b) { text(BECH)(r, n, b); if (n > 3) memcpy(&b[0], "bc1", 3); }, CALL { size_t z = room; fingera_btc_address_decode(T(b), b.size(), o, &z, CP); }, BIG / 512},
      {"key_from_string", true, text(B58A), CALL { int c; fingera_btc_key_from_string(T(b), b.size(), o, &c, CP); }, SQ},
      {"key_from_string of ones", false, same('1'), CALL { int c; fingera_btc_key_from_string(T(b), b.size(), o, &c, CP); }, BIG},
      {"key_from_string of white space", false, same('\n'), CALL { int c; fingera_btc_key_from_string(T(b), b.size(), o, &c, CP); }, BIG},
      {"exkey_from_string", true, text(B58A), CALL { fingera_exkey_from_string(T(b), b.size(), (fingera_ex_key *)o, CP); }, SQ},
      {"exkey_from_string of ones", false, same('1'), CALL { fingera_exkey_from_string(T(b), b.size(), (fingera_ex_key *)o, CP); }, BIG},
      {"expubkey_from_string of white space", false, same(' '), CALL { fingera_expubkey_from_string(T(b), b.size(), (fingera_ex_pubkey *)o, CP); }, BIG},
      {"exkey_init", false, fill, CALL { fingera_exkey_init((fingera_ex_key *)o, b.data(), b.size()); }, BIG},
      {"pubkey_decode", false, same(4), CALL { fingera_btc_pubkey_decode(b.data(), b.size(), o); }, BIG},
      {"key_decode", false, [](Rng &, size_t n, bytes &b) { b.assign(n, 7); if (n > 12) memcpy(&b[0], "\x30\x81\x06\x02\x01\x01\x04\x01\x07", 9); }, CALL { fingera_btc_key_decode(b.data(), b.size(), o); }, BIG},
      {"signature_decode of zeros in R", false, [](Rng &, size_t n, bytes &b) {
         if (n < 40) n = 40;
         b.assign(n, 0);
         size_t rl = n - 11;
         uint8_t h[] = {0x30, 0x80, 2, 0x83, (uint8_t)(rl >> 16), (uint8_t)(rl >> 8), (uint8_t)rl};
         memcpy(&b[0], h, 7);
         b[7 + rl - 1] = 1; b[7 + rl] = 2; b[8 + rl] = 1; b[9 + rl] = 1; }, CALL { fingera_btc_signature_decode(b.data(), b.size(), o); }, BIG},
      {"signature_decode of zeros in a length", false, [](Rng &, size_t n, bytes &b) { b.assign(n, 0); if (n > 4) { b[0] = 0x30; b[1] = 0x80; b[2] = 2; b[3] = 0xff; } }, CALL { fingera_btc_signature_decode(b.data(), b.size(), o); }, BIG},
      {"hex_dump", false, fill, CALL { FILE *f = fopen("/dev/null", "w"), *old = stdout; if (!f) return; stdout = f; fingera_hex_dump(b.data(), b.size(), 0); stdout = old; fclose(f); }, BIG / 16},
      {"os_rand_bytes", false, fill, CALL { fingera_os_rand_bytes(o, b.size()); }, BIG},
      // sizes are fixed: only the stack matters
      {"key_new", false, fill, CALL { fingera_btc_key_new(o); }, 64},
      {"get_pub, sign, verify", false, fill, CALL {
         uint8_t k[32] = {1}, h[32] = {2};
         fingera_btc_key_get_pub(k, o);
         fingera_btc_key_sign(k, h, o + 64);
         fingera_btc_key_verify(o, h, o + 64);
         fingera_btc_signature_encode(o + 64, o + 128); }, 64},
      {"derivation and export", false, fill, CALL {
         fingera_ex_key k, c; fingera_ex_pubkey p, q;
         fingera_exkey_init(&k, "seedseedseedseed", 16);
         fingera_exkey_derive(&k, &c, 1, 2);
         fingera_exkey_get_pub(&k, &p);
         fingera_expubkey_derive(&p, &q, 1, 2);
         fingera_exkey_to_string(&k, O(o), CP);
         fingera_expubkey_to_string(&p, O(o), CP); }, 64},
  };
  return k;
}

void bounded(const Kind &k, uint64_t i, size_t n, const Cost &c, const Cost &small) {
  auto num = [](size_t x) { return std::to_string(x); };
  if (c.stack > 65536) violation(std::string(k.name) + ":stack", "input of " + num(n) + " bytes: " + num(c.stack) + " bytes of stack");
  if (c.stack > small.stack + 3072) violation(std::string(k.name) + ":stack", "input of " + num(n) + " bytes: " + num(c.stack) + " bytes of stack, a small one " + num(small.stack));
  if (c.heap > 8 * n + 65536) violation(std::string(k.name) + ":heap", "input of " + num(n) + " bytes: " + num(c.heap) + " bytes of heap at once");
  stats.add(c.stack <= 2048 ? "stack_to_2k" : c.stack <= 4096 ? "stack_to_4k" : c.stack <= 8192 ? "stack_to_8k" : c.stack <= 16384 ? "stack_to_16k" : "stack_over_16k");
  if (n >= 4096) stats.add(!c.heap ? "heap_none" : c.heap <= n ? "heap_to_1_per_byte" : c.heap <= 2 * n ? "heap_to_2_per_byte" : c.heap <= 4 * n ? "heap_to_4_per_byte" : "heap_over_4_per_byte");
}

void costs() {
  stack_mem = (uint8_t *)mmap(0, GUARD + STACK, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stack_mem += GUARD;
  mprotect(stack_mem, STACK, PROT_READ | PROT_WRITE);
  fingera_btc_key_init();
  auto ks = kinds();
  static uint8_t *room = (uint8_t *)mmap(0, (size_t)64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(room, 1, (size_t)64 << 20);
  for (auto &k : ks) {
    auto one = [&](const bytes &b) { size_t space = 4 * b.size() + 4096; return run([&] { k.call(b, room, space); }); };
    // stack and heap over sizes on both sides of every internal limit
    std::string sec = std::string("space ") + k.name;
    section(sec, 24, [&](Rng &r, uint64_t i) {
      bytes b;
      set_case(sec.c_str(), i, k.name);
      k.make(r, 40, b);
      one(b);          // symbols resolved
      Cost small = one(b);
      for (size_t n : {(size_t)0, (size_t)1, (size_t)9, (size_t)20, (size_t)33, (size_t)34, (size_t)52, (size_t)64, (size_t)65, (size_t)111, (size_t)(1 + r.below(200)), (size_t)256}) {
        k.make(r, n, b);
        Cost c = one(b);
        if (c.stack > small.stack) small = c;
      }
      double per_byte = 0;
      for (int z = 0; z < 30; z++) {
        size_t n = z < 10 ? r.below(300) : z < 20 ? r.below(5000) : k.limit < 70000 ? r.below(k.limit + 1) : r.below(70000);
        if (z == 29 && i < 2 && per_byte * k.limit < 10) n = k.limit;   // the time section judges slow ones
        if (n > k.limit) n = k.limit;
        while (!k.square && n > 4096 && per_byte * n > .05) n /= 2;
        k.make(r, n, b);
        set_case(sec.c_str(), i, std::string(k.name) + " of " + std::to_string(n) + " bytes");
        Cost c = one(b);
        bounded(k, i, n, c, small);
        if (n >= 4096 && c.time / n > per_byte) per_byte = c.time / n;
        if (c.time > 5) { violation(std::string(k.name) + ":time", "input of " + std::to_string(n) + " bytes takes " + std::to_string(c.time) + " s"); return; }
        stats.add("op:" + std::string(k.name));
        stats.nontrivial(fnvs(k.name, n + 1));
      }
    });
    if (opt.shard == 0 && !opt.replay) stats.needs.push_back({"op:" + std::string(k.name), 100});
    if (k.limit < 10000 && !k.square) continue;
    // time: sizes doubling; per byte (per square for base58) it must not grow
    std::string ts = std::string("time ") + k.name;
    section(ts, 2, [&](Rng &r, uint64_t i) {
      bytes b;
      auto best = [&](size_t n, int rounds) {
        double t = 1e9;
        k.make(r, n, b);
        for (int z = 0; z < rounds; z++) { Cost c = one(b); if (c.time < t) t = c.time; }
        return t;
      };
      size_t base = k.square ? 700 : 2048;
      set_case(ts.c_str(), i, std::string(k.name) + " of " + std::to_string(base) + " bytes");
      double t0 = best(base, 9), floor_ = 20e-6;
      if (t0 < floor_) t0 = floor_;
      for (size_t n = base * 2; n <= k.limit; n *= 2) {
        set_case(ts.c_str(), i, std::string(k.name) + " of " + std::to_string(n) + " bytes");
        double ratio = (double)n / base, allow = t0 * ratio * (k.square ? ratio : 1) * 8;
        double t = best(n, 2);
        for (int again = 0; t > allow && again < (t > 4 * allow ? 1 : 3); again++) { double u = best(n, 2); if (u < t) t = u; }   // once may be bad luck
        stats.add("timings");
        stats.nontrivial(fnvs(k.name, n * 3));
        if (t > allow) {
          char m[300];
          snprintf(m, sizeof m, "%zu bytes take %.6f s, %zu bytes %.6f s: %.1f times what %s growth allows", base, t0, n, t, t / allow * 8, k.square ? "quadratic" : "linear");
          violation(std::string(k.name) + ":time", m);
          break;
        }
      }
    });
  }
  if (opt.shard == 0 && !opt.replay) stats.needs.push_back({"timings", 200});
}
}  // namespace

int main(int argc, char **argv) {
  core_init(argc, argv);
  ops_init();
  costs();
  core_finish();
}
