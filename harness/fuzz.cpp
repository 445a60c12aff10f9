// Coverage-guided workload (libFuzzer as a library): the input chooses an
// operation, how the free bytes become its text (as they are, or wrapped in a
// correct checksum so that the code behind it is reached), and the memory
// context; the answer is compared with the reference like in every monitor.
#include "ops.hpp"

#include <dirent.h>
#include <sys/stat.h>

extern "C" {
#include <fingera_libc/btc/key.h>
int LLVMFuzzerRunDriver(int *argc, char ***argv, int (*cb)(const uint8_t *data, size_t size));
}

static std::vector<const Op *> ops;
static Mem M;
static bool memory_only;
static uint64_t n_run;

static int one(const uint8_t *d, size_t n) {
  if (n < 5) return -1;
  Case c;
  c.op = ops[d[0] % ops.size()];
  Rng r(7, d[1], d[2]);
  c.op->gen(r, c);
  bytes t(d + 5, d + n);
  if (c.op->b_hostile()) {
    switch (d[3] % 8) {
      case 0: case 1: case 2: c.b[0] = t; break;
      case 3: c.b[0] = B(ref::b58c_enc({}, t)); break;
      case 4: {  // under the prefix the operation looks for
        if (c.p.builtin < 0 && c.p.pk.empty()) { c.b[0] = t; break; }
        const bytes *pre[] = {&c.p.pk, &c.p.sc, &c.p.sk, &c.p.xpub, &c.p.xprv};
        c.b[0] = B(ref::b58c_enc(*pre[d[4] % 5], t));
        break;
      }
      case 5: case 6: {  // bech32 with a right checksum
        std::string h = c.p.hrp.empty() ? std::string(1 + d[4] % 84, "abz019"[d[4] % 6]) : c.p.hrp;
        for (auto &x : t) x &= 31;
        if (d[3] % 8 == 6 && !t.empty()) {  // a witness program
          uint8_t v = t[0];
          t = ref::b32_raw_enc(bytes(t.begin() + 1, t.end()));
          t.insert(t.begin(), v);
        }
        if (t.size() < 2000) c.b[0] = B(ref::bech_enc(h, t));
        break;
      }
      default:  // edits of the generated text: pairs of (place, byte)
        for (size_t i = 0; i + 1 < t.size() && i < 8; i += 2)
          if (!c.b[0].empty()) c.b[0][t[i] % c.b[0].size()] = t[i + 1];
    }
    for (size_t i = 0; i < c.n.size(); i++) if (d[4] & 0x80) c.n[i] = d[4] & 0x7f;
    if (c.b[0].size() > 6000) c.b[0].resize(6000);
  } else {
    for (size_t i = 0; i + 2 < t.size() && i < 12; i += 3) {
      bytes &b = c.b[t[i] % c.b.size()];
      if (!b.empty()) b[t[i + 1] % b.size()] = t[i + 2];
    }
  }
  if (c.op->unspecified_in(c)) return -1;
  set_case((std::string("fuzz.") + c.op->name).c_str(), n_run++, c.text());
  Rng q(11, d[4], n);
  MemMode mode = random_mode(q);
  std::string want = ref_case(c), got = run_case(c, M, mode);
  stats.evaluations++;
  stats.nontrivial(c.hash());
  stats.add(std::string("op:") + c.op->name);
  if (stats.evaluations % 50000 == 1) stats.sample(c.text());
  if (got == want) return 0;
  bool mem = got.find(" MEMORY: ") != std::string::npos;
  if (memory_only && !mem) { stats.add("answers_wrong_in_other_ways"); return 0; }
  violation(std::string(c.op->name) + (mem ? ":memory" : ":value"), "got " + shorten(got, 700) + " | want " + shorten(want, 700));
  return 0;
}

static void put(const std::string &dir, const std::string &name, const bytes &b) {
  FILE *f = fopen((dir + "/" + name).c_str(), "wb");
  if (!f) return;
  fwrite(b.data(), 1, b.size(), f);
  fclose(f);
}

int main(int argc, char **argv) {
  core_init(argc, argv);
  ops_init();
  fingera_btc_key_init();
  memory_only = opt.prop == "C01";
  bool ndebug = opt.extra.find("ndebug") != std::string::npos;
  for (auto &op : OPS)
    if (op.decoder && (!op.needs_ndebug || ndebug) && (memory_only || strstr(op.props, opt.prop.c_str()))) ops.push_back(&op);
  if (ops.empty()) return 2;
  std::string corpus = opt.outdir + "/corpus";
  mkdir(corpus.c_str(), 0700);
  for (size_t k = 0; k < ops.size(); k++)
    for (int i = 0; i < 24; i++) {
      Rng r(opt.seed, k, (uint64_t)i);
      Case c;
      ops[k]->gen(r, c);
      bytes b = {(uint8_t)k, r.byte(), r.byte(), (uint8_t)(i % 8), r.byte()};
      bytes t = i < 8 ? c.b[0] : gen_bytes(r, r.below(90));
      b.insert(b.end(), t.begin(), t.end());
      put(corpus, "s" + std::to_string(k) + "_" + std::to_string(i), b);
    }
  size_t at = opt.extra.find("worker=");
  uint64_t worker = at == std::string::npos ? 0 : strtoull(opt.extra.c_str() + at + 7, 0, 10);
  uint64_t runs = 2000 * opt.scale;
  std::vector<std::string> a = {"fuzz", "-runs=" + std::to_string(runs), "-seed=" + std::to_string(opt.seed * 1000 + worker + 1), "-max_len=400", "-len_control=20", "-detect_leaks=0",
                                "-rss_limit_mb=3000", "-timeout=300", "-verbosity=0", "-print_final_stats=1", "-artifact_prefix=" + opt.outdir + "/", corpus};
  std::vector<char *> v;
  for (auto &s : a) v.push_back((char *)s.c_str());
  v.push_back(nullptr);
  int n = (int)a.size();
  char **vp = v.data();
  atexit([] {
    static bool done;
    if (done) return;
    done = true;
    DIR *d = opendir((opt.outdir + "/corpus").c_str());
    uint64_t files = 0;
    if (d) { while (readdir(d)) files++; closedir(d); }
    stats.add("fuzz_corpus_inputs_with_new_coverage", files);
    core_finish();
  });
  LLVMFuzzerRunDriver(&n, &vp, one);
  exit(0);
}
