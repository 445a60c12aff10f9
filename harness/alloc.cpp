// C23: every call gives back what it acquired.  The allocator is interposed;
// the balance is taken around whole cases (the harness's own objects are scoped
// inside), double frees and writes after free are caught by a quarantine.
#include "ops.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/wait.h>

extern "C" {
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/random.h>

void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

// ---------------------------------------------------- interposed allocator ----
// Every live block, in an open-addressing table.  Single-threaded.
static const size_t TAB = 1 << 20;
struct Slot {
  void *p;
  size_t n;
  int state;  // 0 empty, 1 live, 2 quarantined, 3 tombstone
};
static Slot *tab;
static bool armed;  // quarantine frees and judge them
static size_t live_blocks, live_bytes, total_allocs, total_frees;
static const char *bad;
static void *quar[4096];
static size_t nquar;

static Slot *find(void *p, bool insert) {
  if (!tab) tab = (Slot *)mmap(0, TAB * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  size_t h = (size_t)(Rng::mix((uintptr_t)p) % TAB);
  Slot *grave = nullptr;
  for (size_t k = 0; k < TAB; k++, h = (h + 1) % TAB) {
    Slot *s = &tab[h];
    if (s->state == 0) return insert ? (grave ? grave : s) : nullptr;
    if (s->state == 3) { if (!grave) grave = s; continue; }
    if (s->p == p) return s;
  }
  return grave;
}
static void *note(void *p, size_t n) {
  if (!p) return p;
  Slot *s = find(p, true);
  s->p = p;
  s->n = n;
  s->state = 1;
  live_blocks++;
  live_bytes += n;
  total_allocs++;
  return p;
}
static const size_t MAXFILL = 1 << 16;
static void drop(void *p) {
  if (!p) return;
  Slot *s = find(p, false);
  if (!s || s->state != 1) {
    if (!armed) { __libc_free(p); return; }
    bad = s && s->state == 2 ? "a block was freed twice" : "a pointer that is not a live block was freed";
    return;
  }
  live_blocks--;
  live_bytes -= s->n;
  total_frees++;
  if (armed && nquar < 4096) {
    s->state = 2;
    size_t n = s->n < MAXFILL ? s->n : MAXFILL;
    memset(p, 0xDD, n);
    quar[nquar++] = p;
    return;
  }
  s->state = 3;
  __libc_free(p);
}
static void flush_quarantine() {
  for (size_t i = 0; i < nquar; i++) {
    Slot *s = find(quar[i], false);
    size_t n = s->n < MAXFILL ? s->n : MAXFILL;
    const uint8_t *b = (const uint8_t *)quar[i];
    for (size_t k = 0; k < n; k++) if (b[k] != 0xDD) { bad = "a freed block was written to"; break; }
    s->state = 3;
    __libc_free(quar[i]);
  }
  nquar = 0;
}
extern "C" {
void *malloc(size_t n) {
  void *p = note(__libc_malloc(n), n);
  if (p && armed) memset(p, 0xA7, n < MAXFILL ? n : MAXFILL);
  return p;
}
void *calloc(size_t a, size_t b) { return note(__libc_calloc(a, b), a * b); }
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  Slot *s = find(p, false);
  size_t old = s && s->state == 1 ? s->n : 0;
  if (!s || s->state != 1) { if (armed) bad = "realloc of a pointer that is not a live block"; return __libc_realloc(p, n); }
  void *q = malloc(n);
  if (!q) return q;
  memcpy(q, p, old < n ? old : n);
  drop(p);
  return q;
}
void *memalign(size_t a, size_t n) { return note(__libc_memalign(a, n), n); }
void *aligned_alloc(size_t a, size_t n) { return note(__libc_memalign(a, n), n); }
int posix_memalign(void **o, size_t a, size_t n) { *o = note(__libc_memalign(a, n), n); return *o ? 0 : ENOMEM; }
void free(void *p) { drop(p); }
}

static int lowest_fd() {
  int fd = open("/dev/null", O_RDONLY);
  if (fd >= 0) close(fd);
  return fd;
}

// Runs f repeatedly; the footprint must not grow with each repetition.
static void balanced(const std::string &key, const std::function<void()> &f) {
  size_t b0 = 0, y0 = 0, b1 = 0, y1 = 0, a0 = total_allocs;
  int f0 = lowest_fd(), f1 = f0;
  int grew = 0;
  for (int rep = 0; rep < 4; rep++) {
    b0 = live_blocks;
    y0 = live_bytes;
    f0 = lowest_fd();
    bad = nullptr;
    armed = true;
    f();
    flush_quarantine();
    armed = false;
    b1 = live_blocks;
    y1 = live_bytes;
    f1 = lowest_fd();
    stats.evaluations++;
    if (bad) { violation(key + ":free", bad); break; }
    if (b1 == b0 && f1 == f0) break;
    grew++;
  }
  stats.add("allocations_watched", total_allocs - a0);
  if (grew == 4) violation(key + (f1 != f0 ? ":descriptor" : ":leak"), "each repetition leaves " + std::to_string((long long)(b1 - b0)) + " block(s), " + std::to_string((long long)(y1 - y0)) + " byte(s), lowest free descriptor " + std::to_string(f0) + " -> " + std::to_string(f1));
}

static Mem M;

int main(int argc, char **argv) {
  core_init(argc, argv);
  ops_init();
  bool ndebug = opt.extra.find("ndebug") != std::string::npos;

  // cycles first: the starting footprint is untouched
  section("cycles", 60, [&](Rng &r, uint64_t i) {
    set_case("cycles", i, "initialise / uninitialise cycle");
    balanced("init_uninit", [&] {
      fingera_btc_key_init();
      fingera_btc_key_uninit();
    });
    balanced("init_use_uninit", [&] {
      uint8_t k[32], s[64], h[32] = {1};
      fingera_btc_key_init();
      fingera_btc_key_new(k);
      fingera_btc_key_sign(k, h, s);
      uint8_t p[64];
      fingera_btc_key_get_pub(k, p);
      fingera_btc_key_verify(p, h, s);
      fingera_btc_key_uninit();
    });
    // the same cycle many times leaves nothing behind in total
    size_t b0 = live_blocks;
    for (int k = 0; k < 20; k++) { fingera_btc_key_init(); fingera_btc_key_uninit(); }
    if (live_blocks != b0) violation("cycles:leak", std::to_string((long long)(live_blocks - b0)) + " blocks left by 20 cycles");
    stats.add("init_uninit_cycles", 22);
    stats.nontrivial(r.u64());
  });
  fingera_btc_key_init();

  uint64_t per = opt.scale * 1500 / 100;
  for (auto &op : OPS) {
    if (op.needs_ndebug && !ndebug) continue;
    bool ec = strstr(op.props, "C13") || strstr(op.props, "C15") || strstr(op.props, "C16") || strstr(op.props, "C18") || strstr(op.props, "C19");
    std::string sec = std::string("op.") + op.name;
    section(sec, ec ? per / 3 + 1 : per, [&](Rng &r, uint64_t i) {
      Case c;
      c.op = &op;
      op.gen(r, c);
      set_case(sec.c_str(), i, c.text());
      if (i < 1) stats.sample(c.text());
      MemMode mode = random_mode(r);
      { std::string warm = run_case(c, M, mode); }
      M.begin(mode);
      std::string first, got;
      first.reserve(1 << 16);
      size_t a0 = total_allocs;
      balanced(op.name, [&] {
        std::string s = run_case(c, M, mode);
        M.begin(mode);
      });
      (void)a0;
      stats.nontrivial(c.hash());
      stats.add(std::string("op:") + op.name);
    });
    if (opt.shard == 0) stats.needs.push_back({std::string("op:") + op.name, 1});
    // sizes sweep: small on the stack, large on the heap, both sides
    if (op.b_hostile() || strstr(op.props, "C04") || strstr(op.props, "C06") || strstr(op.props, "C07"))
      section(std::string("size.") + op.name, 60, [&](Rng &r, uint64_t i) {
        Case c;
        c.op = &op;
        op.gen(r, c);
        size_t n = i < 30 ? 110 + i : i * 37 % 2500;
        static const char al[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
        if (!strcmp(op.name, "to_base58_check") || op.b_hostile() || c.b.size() == 1) {
          c.b[0].resize(n);
          for (auto &x : c.b[0]) x = (uint8_t)al[r.below(58)];
          if (!strcmp(op.name, "from_base32_raw")) for (auto &x : c.b[0]) x &= 31;
        }
        set_case((std::string("size.") + op.name).c_str(), i, c.text());
        MemMode mode = random_mode(r);
        { std::string warm = run_case(c, M, mode); }
        M.begin(mode);
        balanced(op.name, [&] { std::string s = run_case(c, M, mode); M.begin(mode); });
        stats.nontrivial(c.hash());
      });
  }
  section("random", 64, [&](Rng &r, uint64_t i) {
    set_case("random", i, "random bytes / new key");
    std::vector<uint8_t> buf(r.below(200000) + 1);
    balanced("os_rand_bytes", [&] { fingera_os_rand_bytes(buf.data(), buf.size()); });
    balanced("os_rand_bytes_0", [&] { fingera_os_rand_bytes(buf.data(), 0); });
    uint8_t k[32];
    balanced("key_new", [&] { fingera_btc_key_new(k); });
    stats.add("random_calls", 3);
    // a thousand in a row: descriptors cannot run out
    int f0 = lowest_fd();
    for (int j = 0; j < 300; j++) fingera_btc_key_new(k);
    if (lowest_fd() != f0) violation("key_new:descriptor", "300 new keys moved the lowest free descriptor");
    stats.nontrivial(i ^ 0x999);
  });
  // the whole library over, footprint of a complete life
  section("life", 12, [&](Rng &r, uint64_t i) {
    set_case("life", i, "a mixed sequence of calls");
    std::vector<Case> cs;
    std::vector<MemMode> ms;
    for (int k = 0; k < 120; k++) {
      Case c;
      do c.op = &OPS[r.below(OPS.size())]; while (c.op->needs_ndebug && !ndebug);
      c.op->gen(r, c);
      cs.push_back(c);
      ms.push_back(random_mode(r));
    }
    auto all = [&] { for (size_t k = 0; k < cs.size(); k++) { std::string s = run_case(cs[k], M, ms[k]); M.begin(ms[k]); } };
    all();
    balanced("life", all);
    stats.add("mixed_sequences");
  });
  if (opt.shard == 0) { stats.needs.push_back({"init_uninit_cycles", 1}); stats.needs.push_back({"allocations_watched", 1000}); }
  stats.add("frees_watched", total_frees);
  core_finish();
}
