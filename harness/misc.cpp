// C25: accessors of fixed byte order.  C26: the end of a process that cannot go on.
#include "core.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <sys/wait.h>
#include <time.h>
#include <pthread.h>

extern "C" {
#include <fingera_libc/error.h>
uint32_t eu_read_little_32(const void *); uint64_t eu_read_little_64(const void *);
uint32_t eu_read_big_32(const void *); uint64_t eu_read_big_64(const void *);
uint32_t eu_le32(const void *, size_t); uint64_t eu_le64(const void *, size_t);
uint32_t eu_be32(const void *, size_t); uint64_t eu_be64(const void *, size_t);
void eu_write_little_32(void *, uint32_t); void eu_write_big_32(void *, uint32_t); void eu_write_big_64(void *, uint64_t);
uint32_t eu_step_read_little_32(const uint8_t **); uint64_t eu_step_read_little_64(const uint8_t **);
uint32_t eu_step_read_big_32(const uint8_t **); uint64_t eu_step_read_big_64(const uint8_t **);
uint32_t eu_step_le32(const uint8_t **, size_t *); uint64_t eu_step_le64(const uint8_t **, size_t *);
uint32_t eu_step_be32(const uint8_t **, size_t *); uint64_t eu_step_be64(const uint8_t **, size_t *);
void eu_step_write_little_32(uint8_t **, uint32_t *); void eu_step_write_big_32(uint8_t **, uint32_t *); void eu_step_write_big_64(uint8_t **, uint64_t *);
uint64_t eu_alias_read(uint16_t *, uint16_t, uint16_t, int);
uint64_t eu_alias_write(uint16_t *, uint64_t, int);
void fu_plain(void); void fu_text(const char *); void fu_branch(int);
void fu_many(int, const char *, long long, double, size_t, int, const char *, unsigned long, int);
extern int fu_line;
extern const char *fu_func, *fu_file;
}

namespace {

// ------------------------------------------------------------- C25 --------
const char *const NAME[] = {"read_little_32", "read_big_32", "read_little_64", "read_big_64", "le32", "be32", "le64", "be64",
                            "write_little_32", "write_big_32", "write_big_64"};
const int N_ACC = 11;
bool big(int a) { return a == 1 || a == 3 || a == 5 || a == 7 || a >= 9; }
size_t width(int a) { return a == 2 || a == 3 || a == 6 || a == 7 || a == 10 ? 8 : 4; }
uint64_t want_read(int a, const uint8_t *p) {
  uint64_t v = 0;
  size_t w = width(a);
  for (size_t i = 0; i < w; i++) v |= (uint64_t)p[i] << 8 * (big(a) ? w - 1 - i : i);
  return v;
}
bytes want_write(int a, uint64_t v) {
  size_t w = width(a);
  bytes o(w);
  for (size_t i = 0; i < w; i++) o[i] = (uint8_t)(v >> 8 * (big(a) ? w - 1 - i : i));
  return o;
}
uint64_t call_read(int a, const uint8_t *p, size_t off) {
  switch (a) {
    case 0: return eu_read_little_32(p + off);
    case 1: return eu_read_big_32(p + off);
    case 2: return eu_read_little_64(p + off);
    case 3: return eu_read_big_64(p + off);
    case 4: return eu_le32(p, off);
    case 5: return eu_be32(p, off);
    case 6: return eu_le64(p, off);
    default: return eu_be64(p, off);
  }
}
uint64_t call_step(int a, const uint8_t *&p, size_t &o) {
  switch (a) {
    case 0: return eu_step_read_little_32(&p);
    case 1: return eu_step_read_big_32(&p);
    case 2: return eu_step_read_little_64(&p);
    case 3: return eu_step_read_big_64(&p);
    case 4: return eu_step_le32(&p, &o);
    case 5: return eu_step_be32(&p, &o);
    case 6: return eu_step_le64(&p, &o);
    default: return eu_step_be64(&p, &o);
  }
}
void call_write(int a, uint8_t *p, uint64_t v) {
  if (a == 8) eu_write_little_32(p, (uint32_t)v);
  else if (a == 9) eu_write_big_32(p, (uint32_t)v);
  else eu_write_big_64(p, v);
}
std::string u(uint64_t v) { return std::to_string(v); }

void one(Rng &r, const char *sec, uint64_t i, int a, const bytes &raw, unsigned skew, int how) {
  size_t w = width(a);
  Mem m;
  MemMode mode = random_mode(r);
  if (skew < 16) { mode.right = false; mode.skew = skew; }
  m.begin(mode);
  set_case(sec, i, std::string(NAME[a]) + " of " + hexs(raw) + (skew < 16 ? " at alignment " + u(skew) : " before a guard page") + (how ? ", argument with a side effect" : ""));
  stats.evaluations++;
  stats.add(std::string("op:") + NAME[a]);
  stats.nontrivial(fnv(raw.data(), raw.size(), a * 64 + skew + 32 * how));
  if (a < 8) {
    size_t off = a >= 4 ? raw.size() - w : 0;
    const uint8_t *p = m.in(raw);
    uint64_t want = want_read(a, p + off), got;
    if (how) {
      const uint8_t *q = p;
      size_t o = off;
      got = call_step(a, q, o);
      if (q != p + 1 || o != off + (a >= 4)) violation(std::string(NAME[a]) + ":evaluated", "an argument was not evaluated exactly once");
    } else got = call_read(a, p, off);
    if (got != want) violation(std::string(NAME[a]) + ":value", "expected " + u(want) + ", got " + u(got));
  } else {
    uint64_t v = 0;
    for (size_t k = 0; k < w; k++) v = v << 8 | raw[k];
    uint8_t *p = m.out(w);
    bytes want = want_write(a, v);
    if (how) {
      uint8_t *q = p;
      uint64_t x = v;
      uint32_t y = (uint32_t)v;
      if (a == 8) eu_step_write_little_32(&q, &y);
      else if (a == 9) eu_step_write_big_32(&q, &y);
      else eu_step_write_big_64(&q, &x);
      if (q != p + 1 || (a == 10 ? x != v + 1 : y != (uint32_t)(v + 1))) violation(std::string(NAME[a]) + ":evaluated", "an argument was not evaluated exactly once");
    } else call_write(a, p, v);
    if (memcmp(p, want.data(), w)) violation(std::string(NAME[a]) + ":value", "expected " + hexs(want) + ", got " + hexs(p, w));
  }
  std::string c = m.check();
  if (!c.empty()) violation(std::string(NAME[a]) + ":memory", c);
}

void endian_checks() {
  // every byte value at every place over a background of each shape, both ways
  section("bytes", (uint64_t)N_ACC * 8 * 256, [&](Rng &r, uint64_t i) {
    int a = (int)(i / 2048);
    size_t w = width(a), at = i / 256 % 8;
    if (at >= w) return;
    for (int bg = 0; bg < 4; bg++) {
      bytes b(w);
      for (auto &x : b) x = bg == 0 ? 0 : bg == 1 ? 0xff : bg == 2 ? 0x80 : r.byte();
      b[at] = (uint8_t)i;
      one(r, "bytes", i, a, b, 16, 0);
    }
  });
  section("alignments", (uint64_t)N_ACC * 17 * 40, [&](Rng &r, uint64_t i) {
    int a = (int)(i / (17 * 40));
    size_t w = width(a);
    bytes b(w + (a >= 4 && a < 8 ? r.below(40) : 0));
    for (auto &x : b) x = r.byte();
    one(r, "alignments", i, a, b, (unsigned)(i / 40 % 17), 0);
  });
  section("effects", (uint64_t)N_ACC * 200, [&](Rng &r, uint64_t i) {
    int a = (int)(i / 200);
    bytes b(width(a) + (a >= 4 && a < 8 ? r.below(40) : 0));
    for (auto &x : b) x = r.byte();
    one(r, "effects", i, a, b, 16, 1);
  });
  section("types", 11 * 500, [&](Rng &r, uint64_t i) {
    uint16_t w[4];
    int a = (int)(i % 11);
    uint16_t x = (uint16_t)r.u64(), y = (uint16_t)r.u64();
    uint64_t v = r.u64();
    set_case("types", i, std::string(NAME[a]) + " over 16-bit objects");
    stats.evaluations++;
    stats.add("typed_objects");
    stats.nontrivial(v ^ a);
    uint8_t raw[8] = {0};
    if (a < 8) {
      memcpy(raw + 2, &x, 2);
      memcpy(raw + 4, &y, 2);
      uint64_t want = want_read(a, width(a) == 8 ? raw : raw + 2), got = eu_alias_read(w, x, y, a);
      if (want != got) violation(std::string(NAME[a]) + ":types", "expected " + u(want) + ", got " + u(got));
    } else {
      memset(raw, 0x71, 8);
      bytes o = want_write(a, v);
      memcpy(raw + (a == 10 ? 0 : 2), o.data(), o.size());
      uint64_t want, got = eu_alias_write(w, v, a - 8);
      memcpy(&want, raw, 8);
      if (want != got) violation(std::string(NAME[a]) + ":types", "expected " + u(want) + ", got " + u(got));
    }
  });
  // offsets that take more than 31 and 32 bits
  const size_t G = (size_t)1 << 32, SPAN = 2 * G + 65536;
  uint8_t *far = (uint8_t *)mmap(0, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (far != MAP_FAILED) section("far", 4 * 60, [&](Rng &r, uint64_t i) {
    int a = 4 + (int)(i % 4);
    size_t near = r.below(4000);
    static const size_t base[] = {(size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + ((size_t)1 << 31), (size_t)1 << 33, (size_t)1 << 16};
    size_t off = base[i / 4 % 5] + near;
    for (int k = 0; k < 8; k++) { far[off + k] = r.byte(); far[near + k] = r.byte(); }
    set_case("far", i, std::string(NAME[a]) + " at offset " + u(off));
    stats.evaluations++;
    stats.add("far_offsets");
    stats.nontrivial(off * 8 + a);
    uint64_t want = want_read(a, far + off), got = call_read(a, far, off);
    if (want != got) violation(std::string(NAME[a]) + ":offset", "expected " + u(want) + ", got " + u(got));
  });
  if (opt.shard == 0 && !opt.replay) {
    for (int a = 0; a < N_ACC; a++) stats.needs.push_back({std::string("op:") + NAME[a], 1000});
    stats.needs.push_back({"far_offsets", 20});
    stats.needs.push_back({"typed_objects", 1000});
  }
}

// ------------------------------------------------------------- C26 --------
struct Shared {
  volatile int handlers, returned, started, line;
  char func[64], file[512];
};
Shared *SH;
void handler() { SH->handlers++; }

struct Case {
  std::string func = "f", file = "x.c", text;   // text: the message as it must come out
  long line = 1;
  int err = 0;
  int sink = 0;      // 0 pipe, 1 closed, 2 /dev/full, 3 pipe without reader, 4 the same, SIGPIPE ignored, 5 a file
  int buffering = 0; // of stderr: 0 as it is, 1 full, 2 line, 3 full with a tiny buffer
  bool thread = false;
  bool pending = false;  // bytes of the program's own wait in stderr's buffer
  std::function<void()> call;
  bool macro = false;
};
const char *SINK[] = {"a pipe", "closed", "full", "a pipe nobody reads", "a pipe nobody reads, SIGPIPE ignored", "a file"};

void *run_call(void *p) {
  Case *c = (Case *)p;
  errno = c->err;
  c->call();
  SH->returned = 1;
  return 0;
}

void slurp(int fd, std::string &to) {
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) to.append(b, n);
}

void fatal_case(const char *sec, uint64_t i, Case &c, const std::string &what) {
  set_case(sec, i, what + ", stderr " + SINK[c.sink] + ", buffering " + u(c.buffering) + ", errno " + std::to_string(c.err) + (c.thread ? ", from a thread" : "") + ": " + shorten(c.text, 200));
  stats.evaluations++;
  stats.add("sink:" + std::string(SINK[c.sink]));
  stats.add("buffering:" + u(c.buffering));
  stats.add(c.err ? "errno_set" : "errno_zero");
  if (c.thread) stats.add("from_a_thread");
  stats.nontrivial(fnvs(c.text + what, fnvs(c.func + c.file, c.line * 64 + c.err * 8 + c.sink + c.buffering * 1000 + c.thread * 7)));
  memset((void *)SH, 0, sizeof *SH);
  int e[2], o[2];
  std::string tmpl = opt.outdir + "/fatal.XXXXXX";
  int file = -1;
  if (pipe(e) || pipe(o)) { violation("harness:pipe", "no pipe"); return; }
  if (c.sink == 5) { file = mkstemp(&tmpl[0]); unlink(tmpl.c_str()); }
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {

    close(e[0]);
    close(o[0]);
    dup2(o[1], 1);
    int sink = e[1];
    if (c.sink == 2) sink = open("/dev/full", O_WRONLY);
    if (c.sink == 3 || c.sink == 4) {
      int q[2];
      if (pipe(q)) _exit(90);
      close(q[0]);
      sink = q[1];
    }
    signal(SIGPIPE, c.sink == 4 ? SIG_IGN : SIG_DFL);
    if (c.sink == 5) sink = file;
    dup2(sink, 2);
    if (c.sink == 1) close(2);
    if (e[1] > 2) close(e[1]);
    if (o[1] > 2) close(o[1]);
    static char tiny[16];
    if (c.buffering == 1) setvbuf(stderr, NULL, _IOFBF, 0);
    if (c.buffering == 2) setvbuf(stderr, NULL, _IOLBF, 4096);
    if (c.buffering == 3) setvbuf(stderr, tiny, _IOFBF, sizeof tiny);
    if (c.buffering == 4) {   // the program's own stream, whose output leaves its mark on errno
      cookie_io_functions_t io = {};
      io.write = [](void *, const char *b, size_t n) -> ssize_t {
        ssize_t k = write(2, b, n);
        errno = ENOTTY;
        return k < 0 ? 0 : k;
      };
      if (FILE *own = fopencookie(NULL, "w", io)) { setvbuf(own, NULL, _IONBF, 0); stderr = own; }
    }
    if (c.pending) fputs("PENDING;", stderr);
    fputs("OUT;", stdout);
    atexit(handler);
    SH->started = 1;
    if (c.thread) {
      pthread_t t;
      pthread_create(&t, 0, run_call, &c);
      pthread_join(t, 0);
    } else run_call(&c);
    fflush(stdout);
    _exit(0);
  }
  close(e[1]);
  close(o[1]);
  std::string err, out;
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  bool late = false;
  struct pollfd f[2] = {{e[0], POLLIN, 0}, {o[0], POLLIN, 0}};
  int open_ = 2;
  while (open_) {
    int k = poll(f, 2, 1000);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > 60) { late = true; kill(pid, SIGKILL); break; }
    if (k <= 0) continue;
    for (int z = 0; z < 2; z++) if (f[z].fd >= 0 && f[z].revents) {
      char b[65536];
      ssize_t n = read(f[z].fd, b, sizeof b);
      if (n > 0) (z ? out : err).append(b, n);
      else if (n == 0 || errno != EINTR) { f[z].fd = -1; open_--; }
    }
  }
  close(e[0]);
  close(o[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (c.sink == 5) { lseek(file, 0, SEEK_SET); slurp(file, err); close(file); }
  if (late) { violation("fatal:stuck", "the process went on for a minute"); return; }
  if (!SH->started) { violation("harness:child", "the child did not start"); return; }
  if (SH->returned) { violation("fatal:returned", "the process went on after a fatal error"); return; }
  if (err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos) { violation("fatal:memory", err); return; }
  bool by_pipe = c.sink == 3 && WIFSIGNALED(st) && WTERMSIG(st) == SIGPIPE;
  if (!by_pipe) {
    if (WIFSIGNALED(st)) { violation("fatal:signal", "ended by signal " + u(WTERMSIG(st))); return; }
    if (!WEXITSTATUS(st)) { violation("fatal:status", "the process ended with success"); return; }
    if (SH->handlers != 1) violation("fatal:handlers", "exit handlers ran " + u(SH->handlers) + " times");
    if (out != "OUT;") violation("fatal:stdout", "standard output holds " + shorten(out, 200) + " in place of what the program wrote");
    stats.add("stopped");
  } else stats.add("stopped_by_pipe");
  if (c.sink >= 1 && c.sink <= 4) return;
  stats.add("diagnostics");
  std::string func = c.macro ? SH->func : c.func, where = (c.macro ? SH->file : c.file) + ":" + std::to_string(c.macro ? (long)SH->line : c.line);
  if (c.pending) {
    if (err.compare(0, 8, "PENDING;")) { violation("fatal:text", "what the program had written before came out differently: " + shorten(err, 300)); return; }
    err.erase(0, 8);
  }
  size_t at = 0;
  auto next = [&](const std::string &s, const char *name) {
    size_t p = err.find(s, at);
    if (p == std::string::npos) { violation(std::string("fatal:") + name, "the diagnostic lacks " + shorten(s, 200) + ": " + shorten(err, 600)); return false; }
    at = p + s.size();
    return true;
  };
  if (!next("FATAL", "mark") || !next(c.text, "message") || !next(func, "function") || !next(where, "place")) return;
  if (c.err) {
    if (!next(strerror(c.err), "errno") || !next(std::to_string(c.err), "errno")) return;
    stats.add("errno_reported");
  }
  std::string rest = err.substr(at);
  for (char x : rest) if (isalnum((unsigned char)x)) { violation("fatal:text", "the diagnostic goes on: " + shorten(rest, 300)); return; }
}

std::string words(Rng &r, size_t n) {
  static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-./\\:%()[]{}\"'\t";
  std::string s(n, 0);
  for (auto &c : s) c = r.chance(1, 40) ? (char)(0x80 | r.byte()) : a[r.below(sizeof a - 1)];
  return s;
}

size_t text_len(Rng &r) {
  static const size_t l[] = {0, 1, 2, 15, 16, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 200000};
  return r.chance(1, 2) ? l[r.below(sizeof l / sizeof *l)] : r.below(300);
}

void pick_state(Rng &r, Case &c) {
  static const int errs[] = {0, 0, 1, 2, 4, 5, 9, 11, 12, 13, 22, 24, 28, 32, 75, 110, 133, 134, 200, 4096, INT_MAX, -1, -2, INT_MIN};
  c.err = r.chance(1, 3) ? (int)r.range(0, 134) : errs[r.below(sizeof errs / sizeof *errs)];
  c.sink = r.chance(1, 4) ? (int)r.below(5) : r.chance(1, 6) ? 5 : 0;
  c.buffering = (int)r.below(5);
  c.thread = r.chance(1, 5);
  c.pending = r.chance(1, 4) && (c.buffering || c.sink == 0 || c.sink == 5) && !(c.sink >= 1 && c.sink <= 4);
}

void fatal_checks() {
  SH = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto text_at = [](Mem &m, const std::string &s) { bytes b = B(s); b.push_back(0); return (const char *)m.in(b); };
  uint64_t n = 300 * opt.scale / 100;
  section("messages", n, [&](Rng &r, uint64_t i) {   // one string argument of any contents
    Case c;
    pick_state(r, c);
    c.func = words(r, r.chance(1, 6) ? text_len(r) : r.below(40));
    c.file = words(r, r.chance(1, 6) ? text_len(r) : r.below(60));
    static const long lines[] = {0, 1, -1, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN, 65536, 4294967296, 4294967297};
    c.line = r.chance(1, 3) ? lines[r.below(10)] : (long)r.below(5000);
    std::string s = words(r, text_len(r));
    Mem m;
    m.begin(random_mode(r));
    const char *fn = text_at(m, c.func), *fl = text_at(m, c.file);
    int shape = (int)r.below(4);
    const char *sp = text_at(m, s), *fp;
    long long ll = (long long)r.u64();
    double d = (double)(int64_t)r.u64() / 1e6;
    char buf[400];
    switch (shape) {
      case 0: c.text = s; fp = text_at(m, "%s"); c.call = [=] { fingera_fatal(fn, fl, c.line, fp, sp); }; break;
      case 1: c.text = "plain text"; fp = text_at(m, c.text); c.call = [=] { fingera_fatal(fn, fl, c.line, fp); }; break;
      case 2: snprintf(buf, sizeof buf, "a=%d b=%lld c=%.4f d=%c e=%zu f=%5.3s|%% %x %p", (int)i, ll, d, 'q', (size_t)ll, "abcdef", (unsigned)ll, (void *)fn);
        c.text = buf; fp = text_at(m, "a=%d b=%lld c=%.4f d=%c e=%zu f=%5.3s|%% %x %p");
        c.call = [=] { fingera_fatal(fn, fl, c.line, fp, (int)i, ll, d, 'q', (size_t)ll, "abcdef", (unsigned)ll, (void *)fn); };
        break;
      default: snprintf(buf, sizeof buf, "%d %d %d %d %d %d %d %d %g %g %g %g %g %g %g %g %g %s", 1, 2, 3, 4, 5, 6, 7, (int)i, .5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, "end");
        c.text = buf; fp = text_at(m, "%d %d %d %d %d %d %d %d %g %g %g %g %g %g %g %g %g %s");
        c.call = [=] { fingera_fatal(fn, fl, c.line, fp, 1, 2, 3, 4, 5, 6, 7, (int)i, .5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, "end"); };
    }
    stats.add("shape:" + u(shape));
    stats.add("op:fatal");
    fatal_case("messages", i, c, "fingera_fatal");
  });
  section("macro", n / 2, [&](Rng &r, uint64_t i) {
    Case c;
    pick_state(r, c);
    c.macro = true;
    std::string s = words(r, r.below(200));
    int shape = (int)(i % 4);
    char buf[900];

    // the unit notes where it stands before it stops: copied by an exit handler
    c.call = [&, shape] {
      atexit([] { SH->line = fu_line; snprintf(SH->func, sizeof SH->func, "%s", fu_func); snprintf(SH->file, sizeof SH->file, "%s", fu_file); });
      errno = c.err;
      if (shape == 0) fu_plain();
      else if (shape == 1) fu_text(s.c_str());
      else if (shape == 2) fu_many(-5, s.c_str(), LLONG_MIN, 2.5, SIZE_MAX, 255, "tail", ULONG_MAX, 'z');
      else fu_branch((int)i + 1);
    };
    if (shape == 0) c.text = "nothing to add";
    else if (shape == 1) c.text = s;
    else if (shape == 2) { snprintf(buf, sizeof buf, "<%d|%s|%lld|%.3f|%zu|%x|%s|%lu|%c%%>", -5, s.c_str(), LLONG_MIN, 2.5, SIZE_MAX, 255, "tail", ULONG_MAX, 'z'); c.text = buf; }
    else c.text = "bad " + std::to_string((int)i + 1);
    stats.add("op:FINGERA_FATAL");
    fatal_case("macro", i, c, "FINGERA_FATAL");
  });
  section("errno", 140, [&](Rng &r, uint64_t i) {   // every error number
    Case c;
    c.err = (int)i;
    c.buffering = (int)r.below(5);
    c.func = "some_function";
    c.file = "/some/file.c";
    c.line = (long)i;
    c.text = "it failed";
    c.call = [&] { fingera_fatal("some_function", "/some/file.c", c.line, "it failed"); };
    stats.add("op:fatal");
    fatal_case("errno", i, c, "fingera_fatal");
  });
  if (opt.shard == 0 && !opt.replay) {
    for (const char *k : SINK) stats.needs.push_back({"sink:" + std::string(k), 5});
    for (const char *k : {"buffering:1", "buffering:3", "buffering:4", "errno_zero", "errno_reported", "from_a_thread", "stopped", "diagnostics", "op:fatal", "op:FINGERA_FATAL", "shape:0", "shape:1", "shape:2", "shape:3"}) stats.needs.push_back({k, 20});
  }
}
}  // namespace

int main(int argc, char **argv) {
  core_init(argc, argv);
  if (opt.prop == "C25") endian_checks();
  if (opt.prop == "C26") fatal_checks();
  core_finish();
}
