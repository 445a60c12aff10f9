// The public API as a table of operations: how to make a case, how to call the
// library on it inside monitored memory, and what the answer must be.
#pragma once
#include "core.hpp"
#include "ref.hpp"

struct Op;
struct Case {
  const Op *op = nullptr;
  std::vector<bytes> b;
  std::vector<uint64_t> n;
  ref::Params p;
  std::string text() const;
  uint64_t hash() const;
  size_t size() const;
};

// The observable answer of one call, as comparable text.
struct Res {
  std::string s;
  Res &n(const char *k, long long v);
  Res &b(const char *k, const void *p, size_t len);
  Res &b(const char *k, const bytes &v) { return b(k, v.data(), v.size()); }
  Res &t(const char *k, const std::string &v) { return b(k, v.data(), v.size()); }
};

void relate(const char *op, Rng &r, Case &c);   // arguments that have something to do with each other
struct Op {
  const char *name;
  const char *props;     // value properties this operation belongs to
  bool decoder;          // takes untrusted bytes
  bool needs_ndebug;     // contains requests only NDEBUG builds answer
  void (*gen_plain)(Rng &, Case &);
  void (*run)(const Case &, Mem &, Res &);
  void (*ref)(const Case &, Res &);
  bool threadsafe_result = true;
  void gen(Rng &r, Case &c) const {
    gen_plain(r, c);
    if (r.chance(1, 5)) relate(name, r, c);
  }
  // the first byte string is free-form untrusted data (not of a fixed size)
  bool b_hostile() const { return decoder && !strstr(name, "derive") && strcmp(name, "exkey_decode") && strcmp(name, "expubkey_decode"); }
  // inputs whose answer is not specified
  bool unspecified_in(const Case &c) const {
    if (strcmp(name, "from_base32_raw")) return false;
    for (uint8_t x : c.b[0]) if (x == 61) return true;
    return false;
  }
};
extern const std::vector<Op> OPS;
const Op *op_by_name(const std::string &n);
std::vector<const Op *> ops_of(const std::string &prop);

// Parts of an answer that no specification fixes, but that every build must
// agree on (exact failure codes); only C24 looks at it.
extern thread_local std::string case_detail;

// Runs a case in the given memory context; reports memory damage itself.
std::string run_case(const Case &c, Mem &m, const MemMode &mode);
std::string ref_case(const Case &c);
// run + compare with the reference; true when they agree
bool check_case(const Case &c, Mem &m, const MemMode &mode);

// generators shared with other harnesses
bytes gen_key(Rng &r);           // valid scalar
bytes gen_any_scalar(Rng &r);    // 32 bytes, sometimes invalid
bytes special_key(size_t i);
size_t special_keys();
size_t special_signatures();
void special_signature(size_t i, bytes &key, bytes &hash);
bytes gen_pub(Rng &r, bool compressed);
ref::Params gen_params(Rng &r);
bytes mutate(Rng &r, bytes b, const char *alphabet);
void ops_init();
extern bool big_sizes;           // allow long inputs
