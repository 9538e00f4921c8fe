// Property-based testing engine used by every check in /verif.
//
// A case is a finite sequence of bounded choices (the "choice sequence").  The property body draws every
// random decision from a `pbt::Src`; the engine records what was drawn.  A failing case is shrunk by
// deleting / lowering recorded choices and replaying the body on the result, so generators need no shrinkers
// of their own.  Cases run in forked workers: an abort, a sanitizer report, std::terminate or a hang in the
// code under test is a failure of the case that was running, not of the engine.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt
{

struct Src
{
  // replay == nullptr: draw from the generator; otherwise take from *replay (0 once exhausted)
  explicit Src(std::uint64_t seed) : s_(seed ? seed : 0x9E3779B97F4A7C15ull) {}
  explicit Src(const std::vector<std::uint32_t> & replay) : replay_(&replay) {}

  // uniform in [0, n)
  std::uint32_t below(std::uint32_t n)
  {
    if (n <= 1) { return 0u; }
    std::uint32_t v;
    if (replay_)
      v = pos_ < replay_->size() ? (*replay_)[pos_] % n : 0u;
    else
      v = static_cast<std::uint32_t>(next() % n);
    pos_++;
    rec.push_back(v);
    return v;
  }
  // inclusive
  std::int64_t range(std::int64_t lo, std::int64_t hi) { return lo + below(static_cast<std::uint32_t>(hi - lo + 1)); }
  bool chance(std::uint32_t num, std::uint32_t den) { return below(den) >= den - num; } // 0 == false when shrunk
  bool flip() { return below(2) == 1; }
  // weighted choice
  std::size_t weighted(std::initializer_list<std::uint32_t> w)
  {
    std::uint32_t sum = 0; for (auto x : w) sum += x;
    auto r = below(sum);
    std::size_t i = 0;
    for (auto x : w) { if (r < x) return i; r -= x; i++; }
    return w.size() - 1;
  }
  std::vector<std::uint32_t> rec;
private:
  std::uint64_t next()
  {
    std::uint64_t z = (s_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::uint64_t s_ = 0;
  const std::vector<std::uint32_t> * replay_ = nullptr;
  std::size_t pos_ = 0;
};

struct Ctx
{
  bool failed = false;
  std::string message;
  bool nontrivial = false;
  bool leak_known = false;    // the case is one of the KNOWN_FINDINGS that leak: skip the heap oracle (only)
  const char * labels[96];    // fixed storage: labelling must not touch the heap (leak oracle)
  unsigned n_labels = 0;
  std::ostringstream trace;
  bool tracing = false, live = false;

  void fail(const std::string & m) { if (!failed) { failed = true; message = m; } }
  void label(const char * l) // l: string literal
  {
    for (unsigned i = 0; i < n_labels; i++) if (labels[i] == l || !std::strcmp(labels[i], l)) return;
    if (n_labels < 96) labels[n_labels++] = l;
  }
  void mark_nontrivial() { nontrivial = true; }
  template<typename ... Args>
  void log(Args && ... args)
  {
    if (!tracing) return;
    if (!live) { ((trace << args), ...); trace << '\n'; return; }
    std::ostringstream os; ((os << args), ...); std::fprintf(stderr, "%s\n", os.str().c_str()); // survives a crash
  }
};

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// Sources with many instantiations are compiled in parts (checks.json "parts"): PBT_IN(k) says whether part k is in this one.
#ifdef PBT_PART
#define PBT_IN(k) (PBT_PART == (k))
#else
#define PBT_IN(k) 1
#endif

// Records a failure and carries on (never throws: property bodies run inside coroutines of the code under test).
#define PBT_CHECK(ctx, cond, ...)                                                       \
  do { if (!(cond)) { std::ostringstream pbt_os_;                                       \
       pbt_os_ << #cond << " @" << PBT_STR(__LINE__) << " " __VA_OPT__(<< __VA_ARGS__); \
       (ctx).fail(pbt_os_.str()); } } while (0)

using Body = std::function<void(Src &, Ctx &)>;

struct Suite
{
  std::string name;
  std::string describes;      // what is generated and what counts as non-trivial
  std::uint64_t quick, thorough; // number of cases
  Body body;
  bool check_leaks = true;    // live heap bytes must return to their level after the case
  unsigned case_timeout_s = 30;
  unsigned workers = 0;       // 0: one per core
};

int run_main(int argc, char ** argv, const char * property, std::vector<Suite> suites);

}
