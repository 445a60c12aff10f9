// C20: the random source under fault plans.  open/read/close are interposed for
// the random source's descriptor only; each plan is a sequence of outcomes.
// Calls that may stop the process run in a child.
#include "ops.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/random.h>
#include <sys/syscall.h>

extern "C" {
#include <fingera_libc/btc/key.h>
#include <fingera_libc/random.h>
#include <secp256k1.h>
}

// ------------------------------------------------------------ outcomes ----
// full: as much as asked; the fractions shorten a read; E*: errors; EOF: 0
enum Out { FULL, ONE, HALF, ALLBUT1, SEVEN, EOF_, EIO_, EINTR_, EAGAIN_, N_OUT };
static const char *OUT_NAME[] = {"full", "1", "half", "n-1", "7", "eof", "EIO", "EINTR", "EAGAIN"};
static bool is_error(Out o) { return o >= EOF_; }
static bool may_retry(Out o) { return o == EINTR_ || o == EAGAIN_; }

struct Trace {          // shared with the parent
  uint64_t opens, open_fails, closes, reads, delivered, bad_reads, foreign;
  int fatal_allowed;    // the plan contained an error that has been delivered
  int hard_error;       // ... one that no retry can repair
  int returned;         // the call returned normally
  int wrong;            // bytes differ
  uint64_t wrong_at;
  int valid;            // key_new: the key is valid
  int outside;          // canaries damaged
  int fds_left;
  uint64_t handed;
  char path[64];
  uint8_t stream[1 << 20];  // what the source delivered, in order
};
static Trace *T;
static struct {
  bool on;
  int fd;                // the descriptor handed out
  std::vector<int> plan; // read outcomes
  size_t pos;
  int open_errno;        // open fails this way
  int open_fail_times;
  Rng *rng;
  std::vector<bytes> scripted;  // the first draws, verbatim
  size_t spos, soff;
  bool live;             // pass through to the real device
  int want_fd;           // the descriptor open hands out (-1: any)
  bool fast;             // deliver a cheap pattern of the stream position
} P;

static bool is_source(const char *p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }

static int real_open(const char *path, int flags, mode_t m) { return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m); }
static int open_hook(const char *path, int flags, mode_t m) {
  if (!P.on || !is_source(path)) return real_open(path, flags, m);
  snprintf(T->path, sizeof(T->path), "%s", path);
  if (P.open_fail_times > 0) {
    P.open_fail_times--;
    T->open_fails++;
    T->fatal_allowed = 1;
    if (P.open_errno != EINTR && P.open_errno != EAGAIN) T->hard_error = 1;
    errno = P.open_errno;
    return -1;
  }
  int fd = real_open(path, flags, m);
  if (fd >= 0 && P.want_fd > 0 && fd != P.want_fd) { int d = (int)fcntl(fd, F_DUPFD, P.want_fd); if (d >= 0) { syscall(SYS_close, fd); fd = d; } }
  if (fd >= 0) { T->opens++; P.fd = fd; }
  return fd;
}
static void account(const void *buf, size_t n) {
  for (size_t i = 0; i < n && T->delivered + i < sizeof(T->stream); i++) T->stream[T->delivered + i] = ((const uint8_t *)buf)[i];
  T->delivered += n;
}
static uint8_t pattern(uint64_t at) { uint64_t w = (at / 8 + 1) * 0x9e3779b97f4a7c15ull; return (uint8_t)(w >> (8 * (at % 8))); }
static ssize_t read_hook(int fd, void *buf, size_t n) {
  if (!P.on || fd != P.fd || fd < 0) return syscall(SYS_read, fd, buf, n);
  T->reads++;
  if (P.live) {
    ssize_t r = syscall(SYS_read, fd, buf, n);
    if (r > 0) account(buf, (size_t)r);
    else { T->fatal_allowed = 1; if (!(r < 0 && errno == EINTR)) T->hard_error = 1; }
    return r;
  }
  Out o = P.pos < P.plan.size() ? (Out)P.plan[P.pos] : FULL;
  P.pos++;
  if (is_error(o)) {
    T->fatal_allowed = 1;
    if (!may_retry(o)) T->hard_error = 1;
    if (o == EOF_) { errno = 0; return 0; }
    errno = o == EIO_ ? EIO : o == EINTR_ ? EINTR : EAGAIN;
    return -1;
  }
  size_t k = n;
  if (o == ONE) k = 1;
  else if (o == HALF) k = (n + 1) / 2;
  else if (o == ALLBUT1) k = n > 1 ? n - 1 : n;
  else if (o == SEVEN) k = n < 7 ? n : 7;
  if (k > n) k = n;
  if (P.fast) {
    if (k > 0x7ffff000) k = 0x7ffff000;  // what Linux delivers at most
    uint8_t *b = (uint8_t *)buf;
    uint64_t at = T->delivered;
    size_t z = 0;
    for (; z < k && (at + z) % 8; z++) b[z] = pattern(at + z);
    for (; z + 8 <= k; z += 8) { uint64_t w = ((at + z) / 8 + 1) * 0x9e3779b97f4a7c15ull; memcpy(b + z, &w, 8); }
    for (; z < k; z++) b[z] = pattern(at + z);
    T->delivered += k;
    return (ssize_t)k;
  }
  bytes d(k);
  for (auto &x : d) x = P.rng->byte();
  // scripted draws come first
  for (size_t i = 0; i < k && P.spos < P.scripted.size(); i++) {
    d[i] = P.scripted[P.spos][P.soff++];
    if (P.soff == P.scripted[P.spos].size()) { P.spos++; P.soff = 0; }
  }
  if (k) memcpy(buf, d.data(), k);
  account(d.data(), k);
  return (ssize_t)k;
}
extern "C" {
int open(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  return open_hook(path, flags, m);
}
int open64(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  return open_hook(path, flags, m);
}
int openat(int dir, const char *path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  if (P.on && is_source(path)) return open_hook(path, flags, m);
  return (int)syscall(SYS_openat, dir, path, flags, m);
}
int __open_2(const char *path, int flags) { return open_hook(path, flags, 0); }
int __open64_2(const char *path, int flags) { return open_hook(path, flags, 0); }
ssize_t read(int fd, void *buf, size_t n) { return read_hook(fd, buf, n); }
ssize_t __read_chk(int fd, void *buf, size_t n, size_t) { return read_hook(fd, buf, n); }
static FILE *fopen_hook(const char *path, const char *mode, FILE *(*real)(const char *, const char *)) {
  if (!P.on || !is_source(path)) return real(path, mode);
  int fd = open_hook(path, O_RDONLY, 0);
  if (fd < 0) return nullptr;
  cookie_io_functions_t io = {};
  io.read = [](void *c, char *b, size_t n) -> ssize_t { return read((int)(intptr_t)c, b, n); };
  io.close = [](void *c) { return close((int)(intptr_t)c); };
  return fopencookie((void *)(intptr_t)fd, mode, io);
}
FILE *fopen(const char *path, const char *mode) { return fopen_hook(path, mode, (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen")); }
FILE *fopen64(const char *path, const char *mode) { return fopen_hook(path, mode, (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64")); }
int close(int fd) {
  if (P.on && fd == P.fd && fd >= 0) { T->closes++; P.fd = -1; }
  return (int)syscall(SYS_close, fd);
}
// Other ways to the system's random source obey the same plan.
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!P.on) return syscall(SYS_getrandom, buf, n, flags);
  int keep = P.fd;
  P.fd = 1 << 20;
  snprintf(T->path, sizeof(T->path), "getrandom");
  ssize_t r = read_hook(1 << 20, buf, n);
  P.fd = keep;
  return r;
}
int getentropy(void *buf, size_t n) {
  size_t got = 0;
  if (!P.on) { while (got < n) { ssize_t r = syscall(SYS_getrandom, (char *)buf + got, n - got, 0); if (r < 0) return -1; got += (size_t)r; } return 0; }
  while (got < n) {
    ssize_t r = getrandom((char *)buf + got, n - got, 0);
    if (r <= 0) { if (!r) errno = EIO; return -1; }
    got += (size_t)r;
  }
  return 0;
}
}

static int open_fds() {
  int n = 0;
  for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++;
  return n;
}

// ------------------------------------------------------------ one run ----
struct Run {
  enum What { RAND, KEY_NEW, KEY_INIT } what = RAND;
  size_t n = 32;
  std::vector<int> plan;
  int open_errno = 0, open_times = 0;
  std::vector<bytes> scripted;
  bool live = false;
  bool fatal_errno = true;
  int want_fd = -1;      // 0: with standard input closed
};

static std::string plan_text(const Run &r) {
  std::string s = r.what == Run::RAND ? "rand " + std::to_string(r.n) : r.what == Run::KEY_NEW ? "key_new" : "key_init";
  if (r.open_times) s += " open:" + std::string(strerror(r.open_errno)) + "x" + std::to_string(r.open_times);
  s += " reads:";
  for (int o : r.plan) s += std::string(" ") + OUT_NAME[o];
  for (auto &b : r.scripted) s += " draw=" + hexs(b);
  if (r.want_fd >= 0) s += " descriptor:" + std::to_string(r.want_fd);
  if (r.live) s += " (real device)";
  return s;
}

static secp256k1_context *secp;
static Mem mem;
static bool inited;
static void want_init(bool on) {
  if (on && !inited) fingera_btc_key_init();
  if (!on && inited) fingera_btc_key_uninit();
  inited = on;
}

// The body, in whatever process.
static void body(const Run &r, Rng &rng) {
  if (r.what == Run::KEY_NEW) want_init(true);
  if (r.what == Run::KEY_INIT) want_init(false);
  memset(T, 0, offsetof(Trace, stream));
  if (r.want_fd == 0) syscall(SYS_close, 0);
  int before = open_fds();
  P.want_fd = r.want_fd;
  P.fast = false;
  P.fd = -1;
  P.plan = r.plan;
  P.pos = 0;
  P.open_errno = r.open_errno;
  P.open_fail_times = r.open_times;
  P.rng = &rng;
  P.scripted = r.scripted;
  P.spos = P.soff = 0;
  P.live = r.live;
  MemMode m = random_mode(rng);
  mem.begin(m);
  size_t n = r.what == Run::RAND ? r.n : 32;
  uint8_t *buf = mem.out(n);
  P.on = true;
  if (r.what == Run::RAND) fingera_os_rand_bytes(buf, n);
  else if (r.what == Run::KEY_NEW) fingera_btc_key_new(buf);
  else { fingera_btc_key_init(); inited = true; }
  P.on = false;
  T->returned = 1;
  T->fds_left = open_fds() - before;
  T->outside = !mem.check().empty();
  if (r.what == Run::RAND) {
    // the buffer is exactly what the source delivered, in order
    size_t lim = n < sizeof(T->stream) ? n : sizeof(T->stream);
    for (size_t i = 0; i < lim; i++) if (buf[i] != T->stream[i]) { T->wrong = 1; T->wrong_at = i; break; }
  } else if (r.what == Run::KEY_NEW) {
    T->valid = secp256k1_ec_seckey_verify(secp, buf);
    // the key is one whole draw: the first valid one
    size_t at = 0;
    bool found = false;
    for (; at + 32 <= T->delivered && at + 32 <= sizeof(T->stream); at += 32)
      if (secp256k1_ec_seckey_verify(secp, T->stream + at)) { found = true; break; }
    if (!found || memcmp(buf, T->stream + at, 32)) T->wrong = 1;
    T->handed = at + 32;
  }
}

static void judge(const Run &r, const std::string &text, int status, const std::string &err) {
  std::string key = r.what == Run::RAND ? "rand" : r.what == Run::KEY_NEW ? "key_new" : "key_init";
  stats.evaluations++;
  stats.add("reads", T->reads);
  stats.add("bytes_delivered", T->delivered);
  stats.nontrivial(fnvs(text));
  if (T->returned) {
    stats.add("outcome:returned");
    size_t need = r.what == Run::RAND ? r.n : 32;
    if (T->hard_error) violation(key + ":continued", "returned although the source failed: " + text);
    if (T->delivered < need) violation(key + ":short", "returned with " + std::to_string(T->delivered) + " of " + std::to_string(need) + " bytes taken from the source: " + text);
    else if (T->wrong) violation(key + ":bytes", (r.what == Run::RAND ? "byte " + std::to_string(T->wrong_at) + " of the result is not what the source delivered there: " : "the key is not the first valid draw: ") + text);
    if (r.what == Run::KEY_NEW && !T->valid) violation(key + ":invalid", "the new key is not a valid scalar: " + text);
    if (T->outside) violation(key + ":outside", "bytes outside the buffer were written: " + text);
    if (T->opens != T->closes || T->fds_left) violation(key + ":descriptor", std::to_string(T->opens) + " opens, " + std::to_string(T->closes) + " closes, " + std::to_string(T->fds_left) + " descriptor(s) left: " + text);
    return;
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77) return;
  stats.add("outcome:stopped");
  if (!T->fatal_allowed) { violation(key + ":stopped", "the process stopped (" + (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status))) + ") although every read delivered bytes: " + text + " / " + err); return; }
  if (WIFSIGNALED(status) && WTERMSIG(status) != SIGABRT) violation(key + ":crash", "died of signal " + std::to_string(WTERMSIG(status)) + " instead of stopping with a diagnostic: " + text);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) violation(key + ":status", "stopped with exit status 0: " + text);
  if (err.empty()) violation(key + ":silent", "stopped without a diagnostic: " + text);
}

static void run_here(const Run &r, Rng &rng) {
  std::string text = plan_text(r);
  body(r, rng);
  judge(r, text, 0, "");
}
static void run_child(const Run &r, Rng &rng) {
  std::string text = plan_text(r);
  int pfd[2];
  if (pipe(pfd)) exit(2);
  T->returned = 0;
  fflush(0);
  pid_t pid = fork();
  if (pid < 0) exit(2);
  if (!pid) {
    dup2(pfd[1], 2);
    close(pfd[0]);
    close(pfd[1]);
    alarm(60);
    body(r, rng);
    _exit(0);
  }
  close(pfd[1]);
  std::string err;
  char buf[512];
  ssize_t k;
  while ((k = read(pfd[0], buf, sizeof(buf))) > 0) if (err.size() < 2000) err.append(buf, (size_t)k);
  close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  stats.add("children");
  judge(r, text, st, err);
}
// Outcomes that may be fatal go to a child.
static void run(const Run &r, Rng &rng) {
  bool risky = r.open_times != 0 || r.want_fd >= 0;
  for (int o : r.plan) if (is_error((Out)o)) risky = true;
  set_case(cur->section, cur->index, plan_text(r));
  for (int o : r.plan) stats.add(std::string("planned:") + OUT_NAME[o]);
  if (stats.evaluations % 997 == 0) stats.sample(plan_text(r));
  if (risky) run_child(r, rng); else run_here(r, rng);
}

static const size_t SIZES[] = {1, 2, 3, 7, 8, 16, 31, 32, 33, 64, 255, 256, 257, 4096};
static const size_t N_SIZES = sizeof(SIZES) / sizeof(*SIZES);

static void onalarm(int) {}

int main(int argc, char **argv) {
  core_init(argc, argv);
  T = (Trace *)mmap(0, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ops_init();
  secp = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
  uint64_t s = opt.scale;
  // every sequence of non-error outcomes up to length 4, all sizes (in process)
  static const Out good[] = {FULL, ONE, HALF, ALLBUT1, SEVEN};
  uint64_t count = 5 + 25 + 125 + 625;
  section("short_reads", count * N_SIZES, [&](Rng &rng, uint64_t i) {
    Run r;
    r.n = SIZES[i % N_SIZES];
    uint64_t k = i / N_SIZES;
    int len = k < 5 ? 1 : k < 30 ? 2 : k < 155 ? 3 : 4;
    k -= len == 1 ? 0 : len == 2 ? 5 : len == 3 ? 30 : 155;
    for (int j = 0; j < len; j++, k /= 5) r.plan.push_back(good[k % 5]);
    run(r, rng);
    stats.add("enumerated_short");
  });
  // every sequence of outcomes up to length 3 (4 in the thorough tier) that contains an error
  int depth = opt.tier == "thorough" ? 5 : opt.scale > 100 ? 4 : 3;
  uint64_t total = 0, pw = 1;
  for (int d = 1; d <= depth; d++) { pw *= N_OUT; total += pw; }
  section("errors", total, [&](Rng &rng, uint64_t i) {
    Run r;
    uint64_t k = i, p = N_OUT;
    int len = 1;
    while (k >= p) { k -= p; p *= N_OUT; len++; }
    bool err = false;
    int last_err = -1;
    for (int j = 0; j < len; j++, k /= N_OUT) {
      r.plan.push_back((int)(k % N_OUT));
      if (is_error((Out)r.plan.back())) { err = true; last_err = j; }
    }
    if (!err || last_err != len - 1) return;  // what follows the last error is covered by shorter ones
    static const size_t sz[] = {256, 32, 9, 100};
    r.n = sz[i % 4];
    run(r, rng);
    stats.add("enumerated_errors");
  });
  // every error in the middle of a transfer, at each position
  section("error_at", 33 * 4 * 2, [&](Rng &rng, uint64_t i) {
    Run r;
    r.n = 32;
    r.what = (i & 1) ? Run::KEY_NEW : Run::RAND;
    int pos = (int)((i / 8) % 33), e = EOF_ + (int)((i / 2) % 4);
    for (int k = 0; k < pos; k++) r.plan.push_back(ONE);
    r.plan.push_back(e);
    run(r, rng);
    stats.add("error_positions");
  });
  // the source cannot be opened
  static const int oe[] = {ENOENT, EACCES, EMFILE, ENFILE, ENXIO, EIO, EPERM, EINTR};
  section("open", 8 * 3 * 3, [&](Rng &rng, uint64_t i) {
    Run r;
    r.what = (Run::What)(i % 3);
    r.open_errno = oe[(i / 3) % 8];
    r.open_times = (int[]){1, 2, 1000000}[i / 24];
    run(r, rng);
    stats.add("open_failures");
  });
  // long plans of mixed outcomes
  section("random_plans", 20 * s, [&](Rng &rng, uint64_t i) {
    Run r;
    r.n = rng.chance(1, 3) ? SIZES[rng.below(N_SIZES)] : rng.range(1, rng.chance(1, 20) ? 300000 : 9000);
    size_t len = rng.range(1, 40);
    for (size_t k = 0; k < len; k++) r.plan.push_back((int)good[rng.below(5)]);
    if (rng.chance(1, 10)) r.plan[rng.below(len)] = EOF_ + (int)rng.below(4);
    run(r, rng);
  });
  // whatever descriptor number the source gets
  section("descriptor", 12 * 3, [&](Rng &rng, uint64_t i) {
    Run r;
    r.what = (Run::What)(i % 3);
    r.n = SIZES[rng.below(N_SIZES)];
    r.want_fd = (int[]){0, 0, 0, 63, 127, 128, 255, 256, 257, 500, 1000, 0}[i / 3];
    size_t len = rng.below(6);
    for (size_t k = 0; k < len; k++) r.plan.push_back((int)good[rng.below(5)]);
    run(r, rng);
    stats.add("descriptors");
  });
  // requests whose size does not fit in 31 or 32 bits (gigabytes: in one build only)
  bool ndebug = opt.extra.find("ndebug") != std::string::npos;
  section("huge", !ndebug ? 0 : opt.tier == "thorough" ? 6 : 3, [&](Rng &, uint64_t i) {
    size_t n = (size_t[]){((size_t)1 << 31) + 5, ((size_t)1 << 32) + 4099, ((size_t)1 << 31), ((size_t)1 << 31) - 1, ((size_t)3 << 31) + 1, ((size_t)1 << 32)}[i];
    set_case("huge", i, "rand " + std::to_string(n));
    size_t map = n + 8192;
    uint8_t *p = (uint8_t *)mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { stats.add("huge_not_mapped"); return; }
    memset(T, 0, offsetof(Trace, stream));
    P.fd = P.want_fd = -1;
    P.plan.clear();
    if (i & 1) P.plan = {SEVEN, HALF, ALLBUT1};
    P.pos = 0;
    P.open_fail_times = 0;
    P.live = false;
    P.fast = true;
    P.on = true;
    fingera_os_rand_bytes(p, n);
    P.on = false;
    P.fast = false;
    stats.evaluations++;
    stats.add("outcome:returned");
    stats.add("huge_requests");
    stats.add("reads", T->reads);
    if (T->delivered < n) violation("rand:short", "a request of " + std::to_string(n) + " bytes took " + std::to_string(T->delivered) + " from the source");
    else for (size_t k = 0; k < n; k += k + 8192 < n && k > 65536 ? 509 : 1) if (p[k] != pattern(k)) { violation("rand:bytes", "byte " + std::to_string(k) + " of " + std::to_string(n) + " is not what the source delivered there"); break; }
    if (T->opens != T->closes) violation("rand:descriptor", "descriptor not closed after a request of " + std::to_string(n));
    for (size_t z = 0; z < 4096; z++) if (p[n + z]) { violation("rand:outside", "bytes after the buffer were written"); break; }
    munmap(p, map);
  });
  section("empty", 4, [&](Rng &rng, uint64_t) { Run r; r.n = 0; run(r, rng); });
  // new keys: out-of-range draws at the start, then short reads
  section("key_new", 12 * s, [&](Rng &rng, uint64_t i) {
    Run r;
    r.what = Run::KEY_NEW;
    size_t bad = rng.below(i % 89 == 0 ? 400 : i % 7 == 0 ? 12 : 4);
    for (size_t k = 0; k < bad; k++) {
      bytes b;
      switch (rng.below(6)) {
        case 0: b = bytes(32, 0); break;
        case 1: b = bytes(32, 0xFF); break;
        case 2: b = ref::N; break;
        case 3: b = ref::add_small(ref::N, (int64_t)rng.below(1000)); break;
        case 4: b = bytes(32, 0xFF); for (int z = 16; z < 32; z++) b[z] = rng.byte(); break;
        default: b = ref::N; for (int z = 31; z > 20; z--) if (b[z] != 0xFF) { b[z]++; break; } break;
      }
      if (ref::key_valid(b)) b = bytes(32, 0);
      r.scripted.push_back(b);
    }
    if (rng.chance(1, 4)) r.scripted.push_back(ref::add_small(ref::N, -1));
    else if (rng.chance(1, 4)) r.scripted.push_back(ref::num32(1));
    stats.add("invalid_draws", bad);
    size_t len = rng.below(30);
    for (size_t k = 0; k < len; k++) r.plan.push_back((int)good[rng.below(5)]);
    run(r, rng);
  });
  // context seeding
  section("key_init", 2 * s, [&](Rng &rng, uint64_t i) {
    Run r;
    r.what = Run::KEY_INIT;
    size_t len = rng.below(10);
    for (size_t k = 0; k < len; k++) r.plan.push_back((int)good[rng.below(5)]);
    if (rng.chance(1, 4)) r.plan.push_back(EOF_ + (int)rng.below(4));
    run(r, rng);
  });
  // the real device: sizes at which it returns short by itself, under a storm of signals
  section("real", 24, [&](Rng &rng, uint64_t i) {
    Run r;
    r.live = true;
    static const size_t sz[] = {1, 32, 255, 256, 257, 4096, 65536, 1000000};
    r.n = sz[i % 8];
    for (int round = 0; round < 3; round++) {
      set_case("real", i, plan_text(r));
      run_child(r, rng);
    }
  });
  section("real_big", 3, [&](Rng &rng, uint64_t i) {  // above 32 MiB a single read is always short
    size_t n = ((size_t)33 << 20) + i * 4097;
    set_case("real_big", i, std::to_string(n));
    uint8_t *p = (uint8_t *)mmap(0, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(T, 0, offsetof(Trace, stream));
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = onalarm;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, 0);
    itimerval it = {{0, 500}, {0, 500}}, off = {{0, 0}, {0, 0}};
    P.fd = P.want_fd = -1;
    P.fast = false;
    P.plan.clear();
    P.open_fail_times = 0;
    P.live = true;
    P.on = true;
    setitimer(ITIMER_REAL, &it, 0);
    fingera_os_rand_bytes(p, n);
    setitimer(ITIMER_REAL, &off, 0);
    P.on = false;
    stats.evaluations++;
    stats.add("outcome:returned");
    stats.add("reads", T->reads);
    stats.add("real_big_reads", T->reads);
    if (T->delivered != n) violation("rand:short", "a request of " + std::to_string(n) + " bytes took " + std::to_string(T->delivered) + " from the device");
    if (T->opens != T->closes) violation("rand:descriptor", "descriptor not closed after a long request");
    // no page may be left unset (a random page is never all zero), none repeated
    std::set<uint64_t> seen;
    for (size_t k = 0; k + 64 <= n; k += 64) {
      uint64_t h = fnv(p + k, 64);
      bool zero = true;
      for (int z = 0; z < 64; z++) if (p[k + z]) zero = false;
      if (zero) { violation("rand:bytes", "bytes " + std::to_string(k) + ".. of " + std::to_string(n) + " were left unset"); break; }
      if (k % 4096 == 0 && !seen.insert(h).second) { violation("rand:bytes", "bytes repeat at " + std::to_string(k)); break; }
    }
    for (size_t z = 0; z < 4096; z++) if (p[n + z]) { violation("rand:outside", "bytes after the buffer were written"); break; }
    munmap(p, n + 8192);
  });
  if (opt.shard == 0 && !opt.replay) {
    for (const char *k : {"planned:1", "planned:half", "planned:n-1", "planned:7", "planned:eof", "planned:EIO", "planned:EINTR", "outcome:returned", "outcome:stopped", "invalid_draws", "open_failures", "real_big_reads", "descriptors"})
      stats.needs.push_back({k, 20});
    stats.needs.push_back({"enumerated_short", count * N_SIZES});
  }
  core_finish();
}
