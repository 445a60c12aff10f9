#include "core.hpp"

#include <fcntl.h>
#include <sys/stat.h>

Options opt;
CurFile *cur;
Stats stats;
uint64_t g_violations = 0;
static std::set<std::string> g_seen;
static FILE *g_vlog;

bytes gen_bytes(Rng &r, size_t n) {
  bytes b(n);
  int mode = (int)r.below(14);
  switch (mode) {
    case 0: break;                                            // zeros
    case 1: for (auto &x : b) x = 0xFF; break;                // ones
    case 2: { uint8_t v = r.byte(); for (auto &x : b) x = v; break; }
    case 3: { uint8_t v = r.byte(); for (auto &x : b) x = v++; break; }
    case 4: {                                                 // leading zeros
      size_t z = n ? r.below(n + 1) : 0;
      if (r.chance(1, 2) && n) z = r.below(n < 6 ? n + 1 : 6);
      for (size_t i = z; i < n; i++) b[i] = r.byte();
      break;
    }
    case 5: {                                                 // trailing zeros
      size_t z = n ? r.below(n + 1) : 0;
      for (size_t i = 0; i < z; i++) b[i] = r.byte();
      break;
    }
    case 6: for (size_t k = 0; n && k < 3; k++) b[r.below(n)] = r.byte(); break;
    case 7: {                                                 // extreme bytes
      static const uint8_t e[] = {0, 1, 0x7f, 0x80, 0xfe, 0xff};
      for (auto &x : b) x = e[r.below(6)];
      break;
    }
    case 8: for (auto &x : b) x = 0x80 | r.byte(); break;
    default: {
      size_t i = 0;
      for (; i + 8 <= n; i += 8) { uint64_t v = r.u64(); memcpy(&b[i], &v, 8); }
      for (; i < n; i++) b[i] = r.byte();
    }
  }
  return b;
}

size_t gen_len(Rng &r, size_t max) {
  static const size_t edge[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 39, 40, 41,
                                47, 48, 49, 54, 55, 56, 57, 63, 64, 65, 66, 73, 74, 75, 78, 79, 80,
                                81, 82, 83, 86, 87, 90, 91, 92, 93, 94, 95, 110, 111, 112, 113, 119,
                                120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 136, 168,
                                171, 172, 173, 174, 175, 176, 177, 183, 191, 192, 193, 239, 240, 255, 256, 257,
                                319, 320, 383, 384, 385, 511, 512, 513, 1000, 1001, 1023, 1024, 1025};
  size_t n;
  switch (r.below(8)) {
    case 0: case 1: n = edge[r.below(sizeof(edge) / sizeof(*edge))]; break;
    case 2: case 3: n = r.below(40); break;
    case 4: case 5: n = r.below(140); break;
    case 6: n = r.below(max < 400 ? max + 1 : 400); break;
    default: n = r.below(max + 1);
  }
  return n > max ? r.below(max + 1) : n;
}

void core_init(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") opt.prop = val();
    else if (a == "--variant") opt.variant = val();
    else if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--scale") opt.scale = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") opt.tier = val();
    else if (a == "--shard") opt.shard = atoi(val().c_str());
    else if (a == "--shards") opt.shards = atoi(val().c_str());
    else if (a == "--outdir") opt.outdir = val();
    else if (a == "--extra") opt.extra = val();
    else if (a == "--only") {
      std::string v = val();
      size_t c = v.rfind(':');
      opt.only_section = v.substr(0, c);
      opt.only_index = (int64_t)strtoull(v.c_str() + c + 1, 0, 10);
      opt.replay = true;
    } else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      exit(2);
    }
  }
  int fd = open((opt.outdir + "/cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate(fd, sizeof(CurFile)) != 0) { perror("cur"); exit(2); }
  cur = (CurFile *)mmap(0, sizeof(CurFile), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  g_vlog = fopen((opt.outdir + "/violations.log").c_str(), "w");
  if (!g_vlog || cur == MAP_FAILED) exit(2);
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); o += t; }
    else o += (char)c;
  }
  return o;
}

void violation(const std::string &key, const std::string &msg) {
  g_violations++;
  if (!g_seen.insert(key).second || g_seen.size() > 40) return;
  fprintf(g_vlog, "{\"key\":\"%s\",\"section\":\"%s\",\"index\":%llu,\"msg\":\"%s\",\"case\":\"%s\"}\n",
          jesc(key).c_str(), cur->section, (unsigned long long)cur->index,
          jesc(shorten(msg, 3000)).c_str(), jesc(shorten(cur->what, 3000)).c_str());
  fflush(g_vlog);
  if (opt.replay) fprintf(stderr, "VIOLATED %s: %s\n  case: %s\n", key.c_str(), msg.c_str(), cur->what);
}

std::atomic<uint64_t> process_states[4];
void core_finish() {
  static const char *names[] = {"calls_in_a_foreign_locale", "calls_without_the_foreign_locale", "calls_in_other_rounding_modes", "buffers_across_a_multiple_of_4_GiB"};
  for (int i = 0; i < 4; i++) if (process_states[i]) stats.add(names[i], process_states[i]);
  FILE *f = fopen((opt.outdir + "/stats.json").c_str(), "w");
  fprintf(f, "{\"evaluations\":%llu,\"violations\":%llu,\"counters\":{", (unsigned long long)stats.evaluations,
          (unsigned long long)g_violations);
  bool first = true;
  for (auto &c : stats.counters) {
    fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second);
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  first = true;
  for (auto &s : stats.samples) {
    fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str());
    first = false;
  }
  fprintf(f, "],\"needs\":[");
  first = true;
  for (auto &s : stats.needs) {
    fprintf(f, "%s[\"%s\",%llu]", first ? "" : ",", jesc(s.first).c_str(), (unsigned long long)s.second);
    first = false;
  }
  fprintf(f, "],\"done\":true}\n");
  fclose(f);
  f = fopen((opt.outdir + "/distinct.bin").c_str(), "wb");
  for (uint64_t h : stats.distinct) fwrite(&h, 8, 1, f);
  fclose(f);
  fclose(g_vlog);
  if (opt.replay) fprintf(stderr, "replay: %llu violation(s)\n", (unsigned long long)g_violations);
  fflush(0);
  _exit(g_violations ? 1 : 0);
}

void set_case(const char *sec, uint64_t index, const std::string &what) {
  snprintf(cur->section, sizeof(cur->section), "%s", sec);
  cur->index = index;
  snprintf(cur->what, sizeof(cur->what), "%s", what.c_str());
}

void section(const std::string &name, uint64_t count, const std::function<void(Rng &, uint64_t)> &fn) {
  if (!opt.only_section.empty() && opt.only_section != name) return;
  for (uint64_t i = (uint64_t)opt.shard; i < count; i += (uint64_t)opt.shards) {
    if (opt.only_index >= 0) i = (uint64_t)opt.only_index;
    Rng r(opt.seed, fnvs(name), i);
    snprintf(cur->section, sizeof(cur->section), "%s", name.c_str());
    cur->index = i;
    cur->what[0] = 0;
    fn(r, i);
    if (opt.only_index >= 0) break;
  }
}

// ------------------------------------------------------------------ memory ----
static const size_t PG = 4096;

Arena::Arena(size_t want, bool straddle) {
  cap = (want + PG - 1) / PG * PG;
  if (!cap) cap = PG;
  if (straddle) {
    static std::atomic<uint64_t> at{0};
    cap += cap & PG;
    for (int tries = 0; tries < 64; tries++) {
      uint8_t *b = (uint8_t *)((0x7e91 + at.fetch_add(1) % 96) << 32) - cap / 2;
      uint8_t *m = (uint8_t *)mmap(b - PG, cap + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (m == MAP_FAILED) continue;
      if (m != b - PG || mprotect(b, cap, PROT_READ | PROT_WRITE) != 0) { munmap(m, cap + 2 * PG); continue; }
      base = b;
      return;
    }
  }
  uint8_t *m = (uint8_t *)mmap(0, cap + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED || mprotect(m + PG, cap, PROT_READ | PROT_WRITE) != 0) { perror("mmap"); exit(2); }
  base = m + PG;
}
Arena::~Arena() { munmap(base - PG, cap + 2 * PG); }

extern "C" {
__attribute__((weak)) void __asan_poison_memory_region(void const volatile *, size_t);
__attribute__((weak)) void __asan_unpoison_memory_region(void const volatile *, size_t);
}

void Mem::unlock() {
  for (auto &u : uses_) {
    if (u.locked) mprotect(u.a->base, u.a->cap, PROT_READ | PROT_WRITE);
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(u.a->base, u.a->cap);
    u.locked = false;
  }
}

void Mem::begin(const MemMode &m) {
  unlock();
  mode = m;
  ns_ = nb_ = na_ = 0;
  uses_.clear();
  big_.clear();
}

static const size_t CANARY = 192;

uint8_t *Mem::place(size_t n, bool typed, const bytes *src) {
  Arena *a;
  bool across = mode.straddle && n >= 2 && n + 512 <= 32 * PG;
  if (across) {
    if (na_ == across_.size()) across_.emplace_back(new Arena(64 * PG, true));
    a = across_[na_++].get();
  } else if (n + 512 <= 2 * PG) {
    if (ns_ == small_.size()) small_.emplace_back(new Arena(2 * PG));
    a = small_[ns_++].get();
  } else {
    big_.emplace_back(new Arena(n + 512));
    a = big_.back().get();
    nb_++;
  }
  size_t skew = typed ? (mode.skew & ~7u) : mode.skew;
  if (skew + n > a->cap) skew = 0;
  uint8_t *p = mode.right ? a->base + a->cap - n : a->base + skew;
  if (across) {
    p = a->base + a->cap / 2 - (mode.seed & 1 ? n / 2 : 1 + mode.seed % 64 % (n - 1));
    if (typed) p = (uint8_t *)((uintptr_t)p & ~(uintptr_t)7);
    process_states[3]++;
  } else if (typed && mode.right) p = (uint8_t *)((uintptr_t)p & ~(uintptr_t)3);
  Use u;
  u.a = a;
  u.p = p;
  u.n = n;
  u.input = src != nullptr;
  u.lo = (size_t)(p - a->base) > CANARY ? p - CANARY : a->base;
  u.hi = (size_t)(a->base + a->cap - (p + n)) > CANARY ? p + n + CANARY : a->base + a->cap;
  static const char ext[] = "1a2bC=zq0 17LtZ+-_/";
  uint64_t x = Rng::mix(mode.seed + uses_.size());
  for (uint8_t *q = u.lo; q < u.hi; q++) {
    if (views && !views->empty()) *q = (*views)[(size_t)(q - u.lo) % views->size()];
    else if (mode.neighbour == 0) *q = mode.fill;
    else if (mode.neighbour == 1) { x = x * 6364136223846793005ull + 1442695040888963407ull; *q = (uint8_t)(x >> 56); }
    else { x = x * 6364136223846793005ull + 1442695040888963407ull; *q = (uint8_t)ext[(x >> 40) % (sizeof(ext) - 1)]; }
  }
  if (src) {
    if (n) memcpy(p, src->data(), n);
    u.copy = *src;
  } else if (n) {
    memset(p, mode.fill, n);
  }
  u.hlo = fnv(u.lo, p - u.lo);
  u.hhi = fnv(p + n, u.hi - (p + n));
  u.locked = src && mode.readonly;
  if (u.locked) mprotect(a->base, a->cap, PROT_READ);
  if (poison && __asan_poison_memory_region) {
    __asan_poison_memory_region(a->base, (size_t)(p - a->base));
    __asan_poison_memory_region(p + n, (size_t)(a->base + a->cap - (p + n)));
  }
  uses_.push_back(std::move(u));
  return p;
}

const uint8_t *Mem::in(const bytes &b, bool typed) {
  if (mode.share && !typed && !b.empty())
    for (auto &u : uses_) {
      if (!u.input || u.n < b.size()) continue;
      if (memcmp(u.copy.data(), b.data(), b.size()) == 0) return u.p;
      if (memcmp(u.copy.data() + u.n - b.size(), b.data(), b.size()) == 0) return u.p + u.n - b.size();
    }
  return place(b.size(), typed, &b);
}
uint8_t *Mem::out(size_t n, bool typed) { return place(n, typed, nullptr); }
uint8_t *Mem::inout(const bytes &b, bool typed) {
  bool keep = mode.readonly;
  mode.readonly = false;
  uint8_t *p = place(b.size(), typed, &b);
  mode.readonly = keep;
  uses_.back().input = false;
  return p;
}

std::string Mem::check() {
  unlock();
  for (auto &u : uses_) {
    if (fnv(u.lo, u.p - u.lo) != u.hlo) return "bytes before a " + std::to_string(u.n) + "-byte " + (u.input ? "input" : "output") + " were modified";
    if (fnv(u.p + u.n, u.hi - (u.p + u.n)) != u.hhi) return "bytes after a " + std::to_string(u.n) + "-byte " + (u.input ? "input" : "output") + " were modified";
    if (u.input && u.n && memcmp(u.p, u.copy.data(), u.n) != 0) return "a " + std::to_string(u.n) + "-byte input was modified";
  }
  return "";
}

__attribute__((noinline, no_sanitize("address"))) void dirty_stack(uint8_t pattern, uint64_t seed) {
  volatile uint8_t big[24 * 1024];
  if (seed == 0) {
    for (size_t i = 0; i < sizeof(big); i++) big[i] = pattern;
  } else {
    uint64_t x = seed;
    for (size_t i = 0; i < sizeof(big); i++) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      big[i] = (uint8_t)(x >> 56);
    }
  }
  __asm__ __volatile__("" : : "r"(big) : "memory");
}

MemMode random_mode(Rng &r) {
  static const uint8_t fills[] = {0, 0xFF, 0xA5, '=', '1', ' ', 'a', 0xCC, 0x80};
  MemMode m;
  m.right = r.chance(2, 3);
  m.fill = fills[r.below(sizeof(fills))];
  m.neighbour = (int)r.below(3);
  m.skew = (unsigned)r.below(24);
  m.seed = r.u64();
  m.readonly = r.chance(1, 4);
  m.straddle = (m.seed >> 40) % 11 == 0;
  m.share = (m.seed >> 50) % 3 == 0;
  m.process = (unsigned)(Rng::mix(m.seed ^ 77) >> 32) & (PS_LOCALE | PS_ROUND_UP | PS_ROUND_DOWN | PS_ERRNO);
  return m;
}
