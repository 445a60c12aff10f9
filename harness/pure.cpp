// C27: answers do not depend on where in the life cycle, thread or process a
// call is made.  C28: calls do nothing to the process besides answering: a
// system-call filter and snapshots of process-wide state watch every call.
#include "ops.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <langinfo.h>
#include <locale.h>
#include <pthread.h>
#include <sched.h>
#include <stddef.h>
#include <stdio_ext.h>
#include <sys/time.h>
#include <time.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <memory>

extern "C" {
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/chain_parameters.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/error.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
#include <fingera_libc/random.h>
}

// ------------------------------- C functions with state of the whole process
static volatile const char *g_called;
static volatile bool g_armed;
extern "C" {
#define STATEFUL(ret, name, params, args)                                \
  ret name params {                                                      \
    static ret(*next) params = (ret(*) params)dlsym(RTLD_NEXT, #name);   \
    if (g_armed) g_called = #name;                                       \
    return next args;                                                    \
  }
STATEFUL(int, rand, (void), ())
STATEFUL(void, srand, (unsigned s), (s))
STATEFUL(long, random, (void), ())
STATEFUL(void, srandom, (unsigned s), (s))
STATEFUL(long, lrand48, (void), ())
STATEFUL(double, drand48, (void), ())
STATEFUL(void, srand48, (long s), (s))
STATEFUL(char *, strtok, (char *a, const char *b), (a, b))
STATEFUL(char *, setlocale, (int c, const char *l), (c, l))
STATEFUL(locale_t, uselocale, (locale_t l), (l))
STATEFUL(int, setenv, (const char *a, const char *b, int c), (a, b, c))
STATEFUL(int, unsetenv, (const char *a), (a))
STATEFUL(int, putenv, (char *a), (a))
STATEFUL(int, fesetround, (int r), (r))
// and such as only ask about it: an answer must not depend on them
STATEFUL(char *, getenv, (const char *n), (n))
STATEFUL(char *, secure_getenv, (const char *n), (n))
STATEFUL(time_t, time, (time_t *t), (t))
STATEFUL(clock_t, clock, (void), ())
STATEFUL(int, clock_gettime, (clockid_t c, struct timespec *t), (c, t))
STATEFUL(int, gettimeofday, (struct timeval *t, void *z), (t, z))
STATEFUL(int, timespec_get, (struct timespec *t, int b), (t, b))
STATEFUL(struct tm *, localtime, (const time_t *t), (t))
STATEFUL(struct lconv *, localeconv, (void), ())
STATEFUL(char *, nl_langinfo, (nl_item n), (n))
STATEFUL(int, sched_getcpu, (void), ())
STATEFUL(int, fegetround, (void), ())
#undef STATEFUL
}

namespace {
bool ndebug;
Mem M;

bool contextless(const Op &o) {   // nothing of key.h or exkey.h in it
  for (const char *p : {"C14", "C15", "C16", "C17", "C18", "C19"}) if (strstr(o.props, p)) return false;
  for (const char *p : {"key_", "pubkey_", "exkey_", "expubkey_"}) if (!strncmp(o.name, p, strlen(p))) return false;
  return true;
}
std::vector<const Op *> usable(bool all) {
  std::vector<const Op *> v;
  for (auto &o : OPS) if ((ndebug || !o.needs_ndebug) && (all || contextless(o))) v.push_back(&o);
  return v;
}
const char *STAGE[] = {"before initialisation", "initialised", "after uninitialisation"};

// --------------------------------------------------------------- C27 -------
struct Step { const Op *op; Case c; MemMode mode; };
void judge(const Step &s, const char *sec, uint64_t i, const std::string &where) {
  set_case(sec, i, where + ": " + s.c.text());
  stats.nontrivial(s.c.hash() ^ fnvs(where));
  stats.add("op:" + std::string(s.op->name));
  if (s.op->unspecified_in(s.c)) return;
  std::string want = ref_case(s.c), got = run_case(s.c, M, s.mode);
  stats.evaluations++;
  if (got.find(" MEMORY: ") != std::string::npos) return;   // C01 and C03
  if (got != want) violation(std::string(s.op->name) + ":" + where, "got " + shorten(got, 600) + " | want " + shorten(want, 600));
}
Step step(Rng &r, const std::vector<const Op *> &from) {
  Step s;
  s.op = from[r.below(from.size())];
  s.c.op = s.op;
  s.op->gen(r, s.c);
  s.mode = random_mode(r);
  return s;
}
void on_thread(const std::function<void()> &f) {
  pthread_t t;
  pthread_create(&t, 0, [](void *p) -> void * { (*(const std::function<void()> *)p)(); return 0; }, (void *)&f);
  pthread_join(t, 0);
}
struct ChildCount { volatile uint64_t done, evals; };

// in a child; violations go to the log by themselves, crashes come back here
void in_child(const char *sec, uint64_t i, const std::function<void()> &f) {
  static ChildCount *cc = (ChildCount *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  cc->done = 0;
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    uint64_t e0 = stats.evaluations;
    f();
    cc->evals = stats.evaluations - e0;
    cc->done = 1;
    fflush(0);
    _exit(g_violations ? 1 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (cc->done) { stats.evaluations += cc->evals; return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && !g_violations) { /* a sanitizer's exit or a violation limit */ }
  violation(std::string(sec) + ":crash", WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st)));
}

void lifecycle() {
  auto all = usable(true), plain = usable(false);
  if (opt.shard == 0) for (auto o : plain) stats.needs.push_back({"op:" + std::string(o->name), 2});
  int stage = 0;
  uint64_t k = opt.scale;
  // never initialised in this process
  section("before", 20 * k, [&](Rng &r, uint64_t i) {
    Step s = step(r, plain);
    judge(s, "before", i, STAGE[0]);
    stats.add("before_initialisation");
  });
  section("cycles", k * 2 / 5 + 1, [&](Rng &r, uint64_t i) {
    // the same few cases at every stage of several lives
    std::vector<Step> again;
    for (int z = 0; z < 12; z++) again.push_back(step(r, all));
    for (int life = 0; life < 3; life++) {
      bool other = r.chance(1, 3);
      set_case("cycles", i, "initialise");
      if (other) on_thread(fingera_btc_key_init); else fingera_btc_key_init();
      stage = 1;
      stats.add(other ? "initialised_by_another_thread" : "initialised");
      for (auto &s : again) judge(s, "cycles", i, STAGE[1]);
      for (int z = 0; z < 12; z++) {
        Step s = step(r, all);
        if (r.chance(1, 4)) { on_thread([&] { judge(s, "cycles", i, "from another thread"); }); stats.add("from_another_thread"); }
        else judge(s, "cycles", i, STAGE[1]);
      }
      set_case("cycles", i, "uninitialise");
      if (r.chance(1, 3)) on_thread(fingera_btc_key_uninit); else fingera_btc_key_uninit();
      stage = 2;
      for (int z = 0; z < 6; z++) {
        Step s = step(r, plain);
        judge(s, "cycles", i, STAGE[2]);
        stats.add("after_uninitialisation");
      }
    }
  });
  set_case("fork", 0, "initialise");
  fingera_btc_key_init();
  section("fork", k / 10 + 1, [&](Rng &r, uint64_t i) {
    std::vector<Step> mine;
    for (int z = 0; z < 30; z++) mine.push_back(step(r, all));
    if (r.chance(1, 2)) judge(mine[0], "fork", i, STAGE[1]);
    in_child("fork", i, [&] {
      for (auto &s : mine) judge(s, "fork", i, "in a child process");
      if (r.chance(1, 2)) {
        fingera_btc_key_uninit();
        fingera_btc_key_init();
        for (auto &s : mine) judge(s, "fork", i, "in a child process, initialised again");
      }
      if (r.chance(1, 3)) in_child("fork", i, [&] { for (auto &s : mine) judge(s, "fork", i, "in a grandchild process"); });
    });
    stats.add("child_processes");
    for (auto &s : mine) judge(s, "fork", i, "in the parent of a child process");
  });
  // a process that ends the ordinary way, its keys released or not
  section("exits", k / 10 + 4, [&](Rng &r, uint64_t i) {
    std::vector<Step> mine;
    for (int z = 0; z < 3; z++) mine.push_back(step(r, all));
    int how = (int)(i % 4);
    static const char *HOW[] = {"uninitialised", "initialised", "initialised again", "uninitialised by an exit handler"};
    set_case("exits", i, std::string("exit() of a child process, ") + HOW[how]);
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
      for (auto &s : mine) judge(s, "exits", i, "in a child process about to exit");
      if (g_violations) _exit(1);
      set_case("exits", i, std::string("exit() of a child process, ") + HOW[how]);
      if (how == 0) fingera_btc_key_uninit();
      if (how == 2) { fingera_btc_key_uninit(); fingera_btc_key_init(); }
      if (how == 3) atexit(fingera_btc_key_uninit);
      exit(47);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    stats.evaluations++;
    stats.add("ordinary_exits");
    if (WIFSIGNALED(st)) violation("exits:crash", "signal " + std::to_string(WTERMSIG(st)) + " at exit, " + HOW[how]);
    else if (WEXITSTATUS(st) == 1) g_violations++;
    else if (WEXITSTATUS(st) != 47) violation("exits:status", "exit status " + std::to_string(WEXITSTATUS(st)) + " instead of 47, " + HOW[how]);
  });
  // many lives
  section("lives", 8, [&](Rng &r, uint64_t i) {
    Step s = step(r, all);
    for (int z = 0; z < (i ? 150 : 700); z++) {
      set_case("lives", i, "uninitialise / initialise, round " + std::to_string(z));
      fingera_btc_key_uninit();
      fingera_btc_key_init();
      stats.add("lives");
      if (z % 10 == 0) judge(s, "lives", i, STAGE[1]);
    }
  });
  if (opt.shard == 0 && !opt.replay) {
    for (const char *n : {"before_initialisation", "initialised", "initialised_by_another_thread", "from_another_thread", "after_uninitialisation", "child_processes", "ordinary_exits", "lives"}) stats.needs.push_back({n, 20});
  }
}

// --------------------------------------------------------------- C28 -------
struct Watch {
  volatile int trapped, nr, done, state, unfiltered;
  volatile uint64_t evals, at;
  char what[4000], how[600];
};
Watch *W;

void on_sys(int, siginfo_t *si, void *) {
  W->trapped = 1;
  W->nr = si->si_syscall;
  _exit(9);
}
bool filter(bool random, bool write = false) {
  std::vector<int> allowed = {SYS_mmap, SYS_munmap, SYS_mremap, SYS_brk, SYS_madvise, SYS_mprotect, SYS_futex, SYS_exit_group, SYS_exit, SYS_rt_sigreturn, SYS_sched_yield};
  if (random) for (int a : {SYS_open, SYS_openat, SYS_read, SYS_readv, SYS_close, SYS_getrandom, SYS_fstat, SYS_newfstatat, SYS_fcntl, SYS_poll, SYS_ppoll}) allowed.push_back(a);
  if (write) for (int a : {SYS_write, SYS_writev}) allowed.push_back(a);
  std::vector<sock_filter> f;
  f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, arch)));
  f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
  for (int a : allowed) {
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)a, 0, 1));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  }
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  struct sock_fprog p = {(unsigned short)f.size(), f.data()};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
  return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}
const char *sys_name(int nr) {
  switch (nr) {
    case SYS_read: return "read"; case SYS_write: return "write"; case SYS_open: return "open"; case SYS_openat: return "openat"; case SYS_close: return "close";
    case SYS_getrandom: return "getrandom"; case SYS_rt_sigaction: return "rt_sigaction"; case SYS_rt_sigprocmask: return "rt_sigprocmask"; case SYS_clone: return "clone";
    case SYS_clone3: return "clone3"; case SYS_getpid: return "getpid"; case SYS_fstat: return "fstat"; case SYS_newfstatat: return "newfstatat"; case SYS_ioctl: return "ioctl"; case SYS_gettid: return "gettid";
  }
  return "?";
}

struct Snap {
  int round;
  uint32_t mxcsr;
  uint16_t x87;
  std::string loc;
  locale_t th;
  char **env;
  uint64_t envh, params;
  size_t out, err;
  uint64_t streams, buffering;
};

uint64_t params_hash(uint64_t h, const chain_parameters &p) {
  h = fnv(&p, sizeof p, h);
  h = fnv(p.prefix_pubkey_address, p.prefix_pubkey_address_size, h);
  h = fnv(p.prefix_script_address, p.prefix_script_address_size, h);
  h = fnv(p.prefix_secret_key, p.prefix_secret_key_size, h);
  h = fnv(p.prefix_ext_public_key, p.prefix_ext_public_key_size, h);
  h = fnv(p.prefix_ext_secret_key, p.prefix_ext_secret_key_size, h);
  return h;
}
Snap snap() {
  Snap s;
  s.round = fegetround();
  __asm__ volatile("stmxcsr %0" : "=m"(s.mxcsr));
  s.mxcsr &= 0xffc0;   // control bits; the flags are sticky by design
  __asm__ volatile("fnstcw %0" : "=m"(s.x87));
  const char *l = setlocale(LC_ALL, NULL);
  s.loc = l ? l : "";
  s.th = uselocale((locale_t)0);
  s.env = environ;
  s.envh = 5;
  for (char **e = environ; *e; e++) s.envh = fnv(*e, strlen(*e), fnv(e, sizeof *e, s.envh));
  s.params = params_hash(params_hash(params_hash(1, g_mainnet_chain_parameters), g_testnet_chain_parameters), g_regnet_chain_parameters);
  s.out = __fpending(stdout);
  s.err = __fpending(stderr);
  s.streams = (uint64_t)(uintptr_t)stdout ^ (uint64_t)(uintptr_t)stderr * 3 ^ (uint64_t)(uintptr_t)stdin * 7;
  s.buffering = __fbufsize(stdout) * 2 + (__flbf(stdout) != 0) + 1000003 * (__fbufsize(stderr) * 2 + (__flbf(stderr) != 0));
  return s;
}
std::string differs(const Snap &a, const Snap &b) {
  if (a.round != b.round || a.mxcsr != b.mxcsr || a.x87 != b.x87) return "floating-point mode";
  if (a.loc != b.loc || a.th != b.th) return "locale";
  if (a.env != b.env || a.envh != b.envh) return "environment";
  if (a.params != b.params) return "network parameters";
  if (a.out != b.out || a.streams != b.streams) return "standard output";
  if (a.err != b.err) return "standard error";
  if (a.buffering != b.buffering) return "buffering of a standard stream";
  return "";
}

void quiet(const char *sec, uint64_t i, const std::vector<Step> &steps) {
  memset((void *)W, 0, sizeof *W);
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sys;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSYS, &sa, 0);
    setvbuf(stdout, (char *)malloc(4096), _IOFBF, 4096);
    setvbuf(stderr, (char *)malloc(4096), _IOFBF, 4096);
    if (steps.size() > 1) {   // symbols resolved, locale loaded
      MemMode m = steps[0].mode;
      m.process = PS_LOCALE | PS_ROUND_UP;
      run_case(steps[0].c, M, m);
    }
    Snap t = snap();
    (void)t;
    if (!filter(false)) W->unfiltered = 1;
    for (size_t z = 0; z < steps.size(); z++) {
      const Step &s = steps[z];
      W->at = z;
      MemMode mode = s.mode;
      mode.process = 0;
      M.begin(mode);
      Res o;
      g_called = nullptr;
      Snap a = snap();
      g_armed = true;
      s.c.op->run(s.c, M, o);
      g_armed = false;
      Snap b = snap();
      W->evals++;
      std::string d = differs(a, b);
      if (d.empty() && g_called) d = std::string("hidden state of ") + (const char *)g_called;
      if (!d.empty()) { snprintf(W->how, sizeof W->how, "%s", d.c_str()); W->state = 1; _exit(9); }
    }
    W->done = 1;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  stats.evaluations += W->evals;
  if (W->unfiltered) stats.add("batches_without_filter");
  for (size_t z = 0; z < W->evals; z++) { stats.add("op:" + std::string(steps[z].op->name)); stats.nontrivial(steps[z].c.hash()); }
  if (W->done) { stats.add("batches"); return; }
  const Step &s = steps[W->at];
  set_case(sec, i, s.c.text());
  if (W->trapped) violation(std::string(s.op->name) + ":syscall", std::string("system call ") + sys_name(W->nr) + " (" + std::to_string(W->nr) + ") during " + shorten(s.c.text(), 300));
  else if (W->state) violation(std::string(s.op->name) + ":state", std::string("changed: ") + W->how + " by " + shorten(s.c.text(), 300));
  else stats.add("crashed");   // C01's business
}

// calls of the library itself, under the filter and between two snapshots
void filtered(const char *sec, const std::vector<std::pair<const char *, std::function<void()>>> &calls, bool random, int kind, const std::function<void()> &streams = nullptr) {
  memset((void *)W, 0, sizeof *W);
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sys;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSYS, &sa, 0);
    setvbuf(stdout, (char *)malloc(4096), _IOFBF, 4096);
    setvbuf(stderr, (char *)malloc(4096), _IOFBF, 4096);
    if (streams) streams();
    snap();
    if (!filter(random, kind == 2)) W->unfiltered = 1;
    for (size_t z = 0; z < calls.size(); z++) {
      W->at = z;
      g_called = nullptr;
      Snap a = snap();
      g_armed = true;
      calls[z].second();
      g_armed = false;
      Snap b = snap();
      W->evals++;
      if (kind == 2) a.out = b.out = 0;   // what it has printed
      std::string d = differs(a, b);
      if (d.empty() && g_called) d = std::string("hidden state of ") + (const char *)g_called;
      if (!d.empty()) { snprintf(W->how, sizeof W->how, "%s", d.c_str()); W->state = 1; _exit(9); }
    }
    W->done = 1;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  stats.evaluations += W->evals;
  if (W->unfiltered) stats.add("batches_without_filter");
  if (W->done) return;
  const char *name = calls[W->at].first;
  if (W->trapped) violation(std::string(sec) + ":" + name + ":syscall", std::string("system call ") + sys_name(W->nr) + " (" + std::to_string(W->nr) + ") during " + name);
  else if (W->state) violation(std::string(sec) + ":" + name + ":state", std::string("changed: ") + W->how + " by " + name);
  else stats.add("crashed");
}

// megabytes in one call
void large() {
  struct Big { const char *name; std::function<void(const bytes &, bytes &)> f; };
#define CALL [](const bytes &in, bytes &out)
  static const std::vector<Big> BIG = {
      {"to_hex", CALL { fingera_to_hex(in.data(), in.size(), (char *)out.data(), 0); }},
      {"from_hex", CALL { fingera_from_hex((const char *)in.data(), in.size(), out.data()); }},
      {"to_base32", CALL { fingera_to_base32(in.data(), in.size(), (char *)out.data()); }},
      {"from_base32", CALL { fingera_from_base32((const char *)in.data(), in.size(), out.data()); }},
      {"to_base32_raw", CALL { fingera_to_base32_raw(in.data(), in.size(), out.data()); }},
      {"to_base64", CALL { fingera_to_base64(in.data(), in.size(), (char *)out.data()); }},
      {"from_base64", CALL { fingera_from_base64((const char *)in.data(), in.size(), out.data()); }},
      {"sha1", CALL { fingera_sha1(in.data(), in.size(), out.data()); }},
      {"sha2_256", CALL { fingera_sha2_256(in.data(), in.size(), out.data()); }},
      {"sha2_512", CALL { fingera_sha2_512(in.data(), in.size(), out.data()); }},
      {"ripemd160", CALL { fingera_ripemd160(in.data(), in.size(), out.data()); }},
      {"hmac_sha256", CALL { fingera_hmac_sha256(in.data(), in.size() / 2, in.data(), in.size(), out.data()); }},
      {"hmac_sha512", CALL { fingera_hmac_sha512(in.data(), in.size() / 2, in.data(), in.size(), out.data()); }},
      {"hash160", CALL { fingera_btc_hash160(in.data(), in.size(), out.data()); }},
      {"hash256", CALL { fingera_btc_hash256(in.data(), in.size(), out.data()); }},
      {"hash256_d64", CALL { fingera_btc_hash256_d64(out.data(), in.data(), in.size() / 64); }},
      {"to_base58", CALL { fingera_to_base58(in.data(), in.size() / 256, (char *)out.data()); }},
      {"from_base58", CALL { fingera_from_base58((const char *)in.data(), in.size() / 256, out.data()); }},
      {"to_base58_check", CALL { fingera_to_base58_check(in.data(), in.size() / 256, "p", 1, (char *)out.data()); }},
      {"address_decode", CALL { size_t n = 64; fingera_btc_address_decode((const char *)in.data(), in.size() / 256, out.data(), &n, &g_mainnet_chain_parameters); }},
      {"key_from_string", CALL { int f; fingera_btc_key_from_string((const char *)in.data(), in.size() / 256, out.data(), &f, &g_mainnet_chain_parameters); }},
      {"exkey_init", CALL { fingera_ex_key k; fingera_exkey_init(&k, in.data(), in.size()); memcpy(out.data(), &k, sizeof k); }},
      {"signature_decode", CALL { fingera_btc_signature_decode(in.data(), in.size(), out.data()); }},
  };
#undef CALL
  section("large", BIG.size() * 2, [&](Rng &r, uint64_t i) {
    const Big &b = BIG[i / 2];
    bytes in(i & 1 ? (4u << 20) : (1u << 20) + 3 * 64), out(in.size() * 2 + 100);
    char symbol = "A2c3"[r.below(4)];   // a digit of every alphabet but the rest differ
    for (size_t z = 0; z < in.size(); z++) in[z] = (uint8_t)symbol;
    for (int z = 0; z < 50; z++) in[r.below(in.size())] = "A2c3"[r.below(4)];
    set_case("large", i, std::string(b.name) + " of " + std::to_string(in.size()) + " bytes under the filter");
    std::vector<std::pair<const char *, std::function<void()>>> one = {{b.name, [&] { b.f(in, out); }}};
    filtered("large", one, false, 1);
    stats.add("calls_of_megabytes");
    stats.nontrivial(Rng::mix(i * 4 + symbol));
  });
  if (opt.shard == 0 && !opt.replay) stats.needs.push_back({"calls_of_megabytes", 40});
}
// a hex dump prints its answer on standard output, and that is all it does there
void dumping() {
  section("dump", opt.scale / 8 + 3, [&](Rng &r, uint64_t i) {
    bytes in = gen_bytes(r, i % 3 == 0 ? r.below(40) : r.below(6000));
    set_case("dump", i, "hex_dump of " + std::to_string(in.size()) + " bytes, watching the stream");
    static const int MODE[] = {_IOFBF, _IOLBF, _IONBF};
    int mode = MODE[r.below(3)];
    size_t room = 512 + r.below(20000);
    std::vector<std::pair<const char *, std::function<void()>>> one = {{"hex_dump", [&] { fingera_hex_dump(in.data(), in.size(), (int)(i & 1)); }}};
    filtered("dump", one, false, 2, [&] {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      close(fd);
      setvbuf(stdout, mode == _IONBF ? nullptr : (char *)malloc(room), mode, room);
      fputs("before\n", stdout);
    });
    stats.add("dumps_watched");
    stats.nontrivial(Rng::mix(in.size() * 8 + mode));
  });
  if (opt.shard == 0 && !opt.replay) stats.needs.push_back({"dumps_watched", 5});
}

void effects() {
  W = (Watch *)mmap(0, sizeof(Watch), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto all = usable(true);
  fingera_btc_key_init();
  for (auto o : all) {
    std::string sec = std::string("op.") + o->name;
    section(sec, opt.scale * 3 / 100 + 1, [&](Rng &r, uint64_t i) {
      std::vector<Step> v;
      for (int z = 0; z < 40; z++) v.push_back(step(r, {o}));
      set_case(sec.c_str(), i, "a batch of calls under the filter");
      quiet(sec.c_str(), i, v);
    });
    if (opt.shard == 0 && !opt.replay) stats.needs.push_back({"op:" + std::string(o->name), 1});
  }
  section("mixed", opt.scale / 2 + 1, [&](Rng &r, uint64_t i) {
    std::vector<Step> v;
    for (int z = 0; z < 60; z++) v.push_back(step(r, all));
    set_case("mixed", i, "a batch of calls under the filter");
    quiet("mixed", i, v);
  });
  large();
  dumping();
  // what does talk to the system: only to its random source
  section("random", opt.scale / 5 + 1, [&](Rng &r, uint64_t i) {
    static const char *NAME[] = {"os_rand_bytes", "key_new", "key_uninit and key_init"};
    int what = (int)(i % 3);
    size_t n = r.below(5000);
    set_case("random", i, std::string(NAME[what]) + " under the filter");
    auto buf = std::make_shared<bytes>(n + 32);
    std::vector<std::pair<const char *, std::function<void()>>> six;
    for (int z = 0; z < 6; z++) six.push_back({NAME[what], [=] {
      if (what == 0) fingera_os_rand_bytes(buf->data(), n);
      else if (what == 1) fingera_btc_key_new(buf->data());
      else { fingera_btc_key_uninit(); fingera_btc_key_init(); }
    }});
    filtered("random", six, true, 0);
    stats.add("random_calls", W->evals);
    stats.nontrivial(n * 3 + what);
  });
  if (opt.shard == 0 && !opt.replay) { stats.needs.push_back({"batches", 50}); stats.needs.push_back({"random_calls", 50}); }
}
}  // namespace

int main(int argc, char **argv) {
  core_init(argc, argv);
  ops_init();
  ndebug = opt.extra.find("ndebug") != std::string::npos;
  if (opt.prop == "C27") lifecycle();
  if (opt.prop == "C28") effects();
  core_finish();
}
