// Shared infrastructure of the monitors: random cases, guarded memory, dirty
// stack, violation log, crash attribution and coverage counters.
#pragma once
#include <atomic>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::vector<uint8_t> bytes;

// ---------------------------------------------------------------- random ----
struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
    s[0] = mix(mix(mix(a) ^ b) ^ c);
    s[1] = mix(s[0] ^ 0x1234567);
    if (!s[0] && !s[1]) s[0] = 1;
  }
  uint64_t u64() {  // xorshift128+
    uint64_t x = s[0], y = s[1];
    s[0] = y;
    x ^= x << 23;
    s[1] = x ^ y ^ (x >> 17) ^ (y >> 26);
    return s[1] + y;
  }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  uint8_t byte() { return (uint8_t)(u64() >> 24); }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
inline uint64_t fnvs(const std::string &s, uint64_t h = 1469598103934665603ull) {
  return fnv(s.data(), s.size(), h);
}

inline std::string hexs(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  const uint8_t *b = (const uint8_t *)p;
  std::string s;
  s.resize(2 * n);
  for (size_t i = 0; i < n; i++) {
    s[2 * i] = d[b[i] >> 4];
    s[2 * i + 1] = d[b[i] & 15];
  }
  return s;
}
inline std::string hexs(const bytes &b) { return hexs(b.data(), b.size()); }
inline std::string shorten(const std::string &s, size_t max = 600) {
  if (s.size() <= max) return s;
  return s.substr(0, max) + "...(" + std::to_string(s.size()) + ")";
}

bytes gen_bytes(Rng &r, size_t n);   // structured contents
size_t gen_len(Rng &r, size_t max);  // boundary-weighted length
inline bytes B(const std::string &s) { return bytes(s.begin(), s.end()); }
inline std::string S(const bytes &b) { return std::string(b.begin(), b.end()); }

// ------------------------------------------------------------ options/log ----
struct Options {
  std::string prop, variant, outdir = ".", only_section, tier = "quick", extra;
  uint64_t seed = 1;
  uint64_t scale = 100;  // percentage of the default case counts
  int shard = 0, shards = 1;
  int64_t only_index = -1;
  bool replay = false;
};
extern Options opt;

// The current case, kept in a shared file so that a crash can be attributed.
struct CurFile {
  char section[64];
  uint64_t index;
  char what[3900];
};
extern CurFile *cur;

void core_init(int argc, char **argv);
[[noreturn]] void core_finish();  // writes the statistics and exits
void violation(const std::string &key, const std::string &msg);
extern uint64_t g_violations;

struct Stats {
  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::vector<std::pair<std::string, uint64_t>> needs;
  void add(const std::string &c, uint64_t n = 1) { counters[c] += n; }
  void nontrivial(uint64_t h) {
    if (distinct.size() < 3000000) distinct.insert(h);
  }
  void sample(const std::string &s) {
    if (samples.size() < 12) samples.push_back(shorten(s, 300));
  }
};
extern Stats stats;

void set_case(const char *section, uint64_t index, const std::string &what);

// Runs `fn(rng, i)` for the cases of this shard of one section.
void section(const std::string &name, uint64_t count, const std::function<void(Rng &, uint64_t)> &fn);

// ---------------------------------------------------------- guarded memory ----
// One block between two inaccessible pages.
struct Arena {
  uint8_t *base = nullptr;  // first accessible byte
  size_t cap = 0;
  explicit Arena(size_t want, bool straddle = false);   // straddle: base + cap / 2 is a multiple of 4 GiB, if such a place is free
  ~Arena();
  Arena(const Arena &) = delete;
};

struct MemMode {
  bool right = true;       // buffer ends at a guard page (else starts after one)
  uint8_t fill = 0xA5;     // what the neighbouring bytes and output prefill hold
  int neighbour = 0;       // 0: fill, 1: random, 2: text that could extend input
  unsigned skew = 0;       // left mode: distance from the guard page
  uint64_t seed = 1;
  bool readonly = false;   // inputs lie in memory that cannot be written
  bool straddle = false;   // the buffer lies across a multiple of 4 GiB
  bool share = false;      // an input found in an earlier one is passed as (part of) that buffer
  unsigned process = 0;    // state of the calling thread: PS_* bits
};
// The caller's locale, rounding mode and errno are none of the library's business.
extern std::atomic<uint64_t> process_states[4];
enum { PS_LOCALE = 1, PS_ROUND_UP = 2, PS_ROUND_DOWN = 4, PS_ERRNO = 8 };

class Mem {
 public:
  MemMode mode;
  bool poison = true;            // ASan builds: everything around the buffers is off limits
  const bytes *views = nullptr;  // when set, the neighbouring bytes repeat this text
  Mem() {}
  void begin(const MemMode &m);
  const uint8_t *in(const bytes &b, bool typed = false);
  uint8_t *out(size_t n, bool typed = false);
  uint8_t *inout(const bytes &b, bool typed = false);
  // Empty string when every canary and every input is intact.
  std::string check();

 private:
  struct Use {
    Arena *a;
    uint8_t *p;
    size_t n;
    bool input;
    bytes copy;
    uint8_t *lo, *hi;  // canary range
    uint64_t hlo, hhi;
    bool locked;
  };
  void unlock();
  std::vector<std::unique_ptr<Arena>> small_, big_, across_;
  size_t ns_ = 0, nb_ = 0, na_ = 0;
  std::vector<Use> uses_;
  uint8_t *place(size_t n, bool typed, const bytes *src);
};

// Fills the dead stack below the caller with a pattern.
void dirty_stack(uint8_t pattern, uint64_t seed);
MemMode random_mode(Rng &r);
