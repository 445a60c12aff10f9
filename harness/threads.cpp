// C22: many threads, own data each.  ThreadSanitizer (build "tsan") or plain
// stress (build "rel") over three shapes of schedule:
//   cold.<op>   a fresh process per operation: 8 threads make the very first
//               calls after initialisation at once
//   mixed       8 threads run random operations against each other
//   hot.<op>    some two thousand calls of one operation, by 8 threads, in one process
//   together    hex dumps to one stream: every character arrives once
// Every answer is compared with the same call run alone afterwards.
#include "ops.hpp"
#include "ref.hpp"

#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <atomic>

extern "C" {
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/hex.h>
#include <fingera_libc/random.h>
}

static const int T = 8;
static bool emulated;                 // under Helgrind or DRD: real barriers, no counters in between
static pthread_barrier_t barrier;
static std::atomic<int> *g_reports;   // shared with the parent
static struct Shared {
  std::atomic<uint64_t> calls, compared, reports, overlaps, interleavings;
} *sh;

extern "C" void __tsan_on_report(void *) {
  if (sh) sh->reports++;
}

// A spinning start line: no lock, so that the calls really collide.
struct Line {
  std::atomic<int> n{0};
  void wait(int round) {
    if (emulated) { pthread_barrier_wait(&barrier); return; }
    n.fetch_add(1, std::memory_order_relaxed);
    for (uint64_t spins = 1; n.load(std::memory_order_relaxed) < T * (round + 1); spins++)
      if (spins % 2000 == 0) sched_yield();
  }
};

struct Work {
  std::vector<Case> cases;
  std::vector<MemMode> modes;
  std::vector<std::string> got;
};

static Line *line;
static Work work[T];
static std::atomic<uint64_t> in_call;
static int rounds = 1;                // how often each thread goes through its cases
static FILE *devnull;

struct Arg { int t; bool sync; };

static void *body(void *a) {
  Arg *g = (Arg *)a;
  Work &w = work[g->t];
  Mem mem;
  for (int again = 1; again < rounds; again++)
    for (size_t i = 0; i < w.cases.size(); i++) {
      if (again == 1 && i == 0) line->wait(0);
      std::string got = run_case(w.cases[i], mem, w.modes[i]);
      sh->calls.fetch_add(1, std::memory_order_relaxed);
      if (again == 1) w.got[i] = got;
      else if (got != w.got[i]) { w.got[i] = "in round " + std::to_string(again) + ": " + got; return nullptr; }   // told apart when run alone
    }
  if (rounds > 1) return nullptr;
  for (size_t i = 0; i < w.cases.size(); i++) {
    if (g->sync || i == 0) line->wait((int)i);
    if (emulated) { w.got[i] = run_case(w.cases[i], mem, w.modes[i]); continue; }
    uint64_t others = in_call.fetch_add(1, std::memory_order_relaxed);
    if (others) sh->overlaps.fetch_add(1, std::memory_order_relaxed);
    w.got[i] = run_case(w.cases[i], mem, w.modes[i]);
    in_call.fetch_sub(1, std::memory_order_relaxed);
    sh->calls.fetch_add(1, std::memory_order_relaxed);
  }
  return nullptr;
}

static void run_threads(bool sync) {
  if (emulated) pthread_barrier_init(&barrier, nullptr, T);
  line = new Line;
  pthread_t th[T];
  Arg args[T];
  for (int t = 0; t < T; t++) {
    work[t].got.assign(work[t].cases.size(), "");
    args[t] = {t, sync};
  }
  for (int t = 0; t < T; t++) pthread_create(&th[t], nullptr, body, &args[t]);
  for (int t = 0; t < T; t++) pthread_join(th[t], nullptr);
  delete line;
  if (emulated) for (int t = 0; t < T; t++) sh->calls += work[t].cases.size();
  // alone
  Mem mem;
  for (int t = 0; t < T; t++)
    for (size_t i = 0; i < work[t].cases.size(); i++) {
      std::string alone = run_case(work[t].cases[i], mem, work[t].modes[i]);
      sh->compared++;
      if (alone != work[t].got[i]) {
        set_case(cur->section, cur->index, work[t].cases[i].text());
        violation(std::string(work[t].cases[i].op->name) + ":threads", "together: " + shorten(work[t].got[i], 500) + " | alone: " + shorten(alone, 500));
        return;
      }
    }
}

// Runs f in a child process (its library state is as fresh as after the fork).
static void in_child(const char *sec, uint64_t idx, const std::string &what, const std::function<void()> &f) {
  set_case(sec, idx, what);
  fflush(0);
  uint64_t r0 = sh->reports;
  pid_t pid = fork();
  if (pid == 0) {
    f();
    fflush(0);
    _exit(g_violations ? 1 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  set_case(sec, idx, what);
  if (sh->reports != r0) violation(std::string(sec) + ":race", "ThreadSanitizer reported " + std::to_string(sh->reports - r0) + " race(s); see the replay's output");
  if (WIFSIGNALED(st)) violation(std::string(sec) + ":crash", "signal " + std::to_string(WTERMSIG(st)) + " with several threads");
  else if (WEXITSTATUS(st) == 1) g_violations++;  // already logged by the child
  else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 66) violation(std::string(sec) + ":crash", "exit status " + std::to_string(WEXITSTATUS(st)) + " with several threads");
  stats.evaluations += (uint64_t)1;
}

static void fill(Rng &r, const std::vector<const Op *> &ops, size_t per, bool same) {
  for (int t = 0; t < T; t++) { work[t].cases.clear(); work[t].modes.clear(); }
  for (size_t i = 0; i < per; i++) {
    Case shared;
    shared.op = r.pick(ops);
    shared.op->gen(r, shared);
    for (int t = 0; t < T; t++) {
      Case c;
      if (same && i % 3 == 0) c = shared;
      else {
        c.op = same ? shared.op : r.pick(ops);
        c.op->gen(r, c);
      }
      stats.nontrivial(Rng::mix(c.hash()) ^ t);
      work[t].modes.push_back(random_mode(r));
      work[t].cases.push_back(std::move(c));
    }
  }
}

static void *dump_body(void *a) {
  Arg *g = (Arg *)a;
  uint8_t buf[3000];
  Rng r(g->t, 5);
  for (auto &x : buf) x = r.byte();
  line->wait(0);
  for (int i = 0; i < 20; i++) fingera_hex_dump(buf, 100 + 97 * (size_t)i, i & 1);
  if (!emulated) sh->calls += 20;
  return nullptr;
}
static struct { bytes data; size_t times; } dumps[T];
static void *dump_many(void *a) {
  Arg *g = (Arg *)a;
  line->wait(0);
  for (size_t i = 0; i < dumps[g->t].times; i++) fingera_hex_dump(dumps[g->t].data.data(), dumps[g->t].data.size(), g->t & 1);
  return nullptr;
}
static uint8_t keys[T][64][32];
static void *rand_body(void *a) {
  Arg *g = (Arg *)a;
  line->wait(0);
  for (int i = 0; i < 64; i++) fingera_btc_key_new(keys[g->t][i]);
  uint8_t big[5000];
  for (int i = 0; i < 5; i++) fingera_os_rand_bytes(big, sizeof big - i);
  if (!emulated) sh->calls += 69;
  return nullptr;
}
static void simple(void *(*f)(void *)) {
  if (emulated) pthread_barrier_init(&barrier, nullptr, T);
  line = new Line;
  pthread_t th[T];
  Arg args[T];
  for (int t = 0; t < T; t++) args[t] = {t, false};
  for (int t = 0; t < T; t++) pthread_create(&th[t], nullptr, f, &args[t]);
  for (int t = 0; t < T; t++) pthread_join(th[t], nullptr);
  delete line;
}

int main(int argc, char **argv) {
  core_init(argc, argv);
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared;
  (void)g_reports;
  ops_init();
  emulated = opt.extra.find("emulated") != std::string::npos;
  bool ndebug = opt.extra.find("ndebug") != std::string::npos;
  fingera_btc_key_init();
  devnull = fopen("/dev/null", "w");
  std::vector<const Op *> all, shortops;
  for (auto &o : OPS) if (o.threadsafe_result && (!o.needs_ndebug || ndebug)) all.push_back(&o);
  uint64_t reps = emulated ? (opt.scale + 99) / 100 : opt.scale > 400 ? 24 : opt.scale > 150 ? 6 : 3;

  for (const Op *op : all) {
    std::string sec = std::string("cold.") + op->name;
    section(sec, reps, [&](Rng &r, uint64_t i) {
      big_sizes = i % 3 == 2;
      std::vector<const Op *> one{op};
      fill(r, one, i % 3 == 2 ? 6 : 14, true);
      if (i == 0) stats.sample(std::string("cold ") + work[0].cases[0].text());
      in_child(sec.c_str(), i, std::string("first concurrent calls of ") + op->name, [&] { run_threads(true); });
      stats.add("cold_starts");
      stats.add(std::string("op:") + op->name);
    });
    if (opt.shard == 0) stats.needs.push_back({std::string("op:") + op->name, 1});
  }
  // thousands of calls of one operation in one process, together
  if (!emulated) for (const Op *op : all) {
    std::string sec = std::string("hot.") + op->name;
    section(sec, opt.scale > 400 ? 3 : 1, [&](Rng &r, uint64_t i) {
      fill(r, {op}, 6, true);
      for (auto &w : work) for (auto &m : w.modes) { m.readonly = m.straddle = false; m.process = 0; }   // no system calls in between
      rounds = (opt.scale > 400 ? 360 : 46) + (int)i;
      in_child(sec.c_str(), i, std::string("thousands of concurrent calls of ") + op->name, [&] { run_threads(false); });
      rounds = 1;
      stats.add("operations_called_thousands_of_times_together");
    });
  }
  if (!emulated) section("together.hex_dump", reps * 2, [&](Rng &r, uint64_t i) {
    // one output stream for all: no byte may be lost or come twice
    static uint64_t want[256];
    memset(want, 0, sizeof want);
    size_t size = i & 1 ? r.below(3000) : r.below(40) + 1, times = i & 1 ? 40 : 1500;
    for (int t = 0; t < T; t++) {
      dumps[t].data = gen_bytes(r, size);
      dumps[t].times = times;
      for (unsigned char c : ref::hex_dump(dumps[t].data, t & 1)) want[c] += times;
    }
    in_child("together.hex_dump", i, "concurrent hex dumps to one stream", [&] {
      std::string name = opt.outdir + "/dump";
      FILE *f = fopen(name.c_str(), "w"), *old = stdout;
      if (!f) return;
      stdout = f;
      simple(dump_many);
      stdout = old;
      fclose(f);
      f = fopen(name.c_str(), "r");
      fseek(f, 0, SEEK_END);
      size_t n = (size_t)ftell(f);
      rewind(f);
      bytes buf(n);
      if (n && fread(buf.data(), 1, n, f) != n) n = 0;
      fclose(f);
      unlink(name.c_str());
      uint64_t got[256] = {0};
      for (size_t z = 0; z < n; z++) got[(uint8_t)buf[z]]++;
      for (int c = 0; c < 256; c++)
        if (got[c] != want[c]) { violation("hex_dump:shared stream", "the character " + std::to_string(c) + " came " + std::to_string(got[c]) + " times instead of " + std::to_string(want[c])); break; }
      sh->compared += T * times;
      sh->calls += T * times;
    });
    stats.add("shared_stream_runs");
  });
  section("cold.hex_dump", reps, [&](Rng &, uint64_t i) {
    in_child("cold.hex_dump", i, "concurrent hex dumps", [&] {
      FILE *old = stdout;
      stdout = devnull;
      simple(dump_body);
      stdout = old;
    });
    stats.add("cold_starts");
  });
  section("cold.random", reps, [&](Rng &, uint64_t i) {
    in_child("cold.random", i, "concurrent key generation", [&] {
      simple(rand_body);
      std::set<std::string> seen;
      for (int t = 0; t < T; t++) for (int k = 0; k < 64; k++) {
        bytes b(keys[t][k], keys[t][k] + 32);
        if (!ref::key_valid(b)) violation("key_new:threads", "an invalid key under concurrency");
        if (!seen.insert(hexs(b)).second) violation("key_new:threads", "the same key twice under concurrency");
      }
      sh->compared += T * 64;
    });
    stats.add("cold_starts");
  });
  section("mixed", 24 * opt.scale / 100, [&](Rng &r, uint64_t i) {
    big_sizes = i % 4 == 0;
    fill(r, all, 60, false);
    if (i < 1) stats.sample("mixed " + work[0].cases[0].text() + " against " + work[1].cases[0].text());
    in_child("mixed", i, "random operations against each other", [&] { run_threads(i & 1); });
    stats.add("mixed_runs");
  });
  stats.add("calls_in_threads", sh->calls);
  stats.add("answers_compared_with_running_alone", sh->compared);
  stats.add("calls_started_while_another_was_running", sh->overlaps);
  stats.add("race_reports", sh->reports);
  stats.evaluations = sh->calls;
  if (opt.shard == 0 && !emulated) { stats.needs.push_back({"calls_started_while_another_was_running", 100}); stats.needs.push_back({"cold_starts", 10}); stats.needs.push_back({"operations_called_thousands_of_times_together", all.size()}); }
  core_finish();
}
