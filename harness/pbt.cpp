#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>

#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
static std::size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static std::size_t live_bytes() { return 0; }
#endif

extern "C" __attribute__((used)) const char * __asan_default_options()
{ return "detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
extern "C" __attribute__((used)) const char * __ubsan_default_options()
{ return "abort_on_error=1:halt_on_error=1:print_stacktrace=1"; }
extern "C" __attribute__((used)) const char * __tsan_default_options()
{ return "abort_on_error=1:halt_on_error=1:report_signal_unsafe=0"; }

// the reference count of exceptions is atomic, but within the uninstrumented libstdc++
extern "C" __attribute__((used)) const char * __tsan_default_suppressions()
{ return "race:std::__exception_ptr::exception_ptr::_M_release\n"; }

namespace pbt
{

static double now_s()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
  std::uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static std::uint64_t hash_str(const std::string & s)
{
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

static std::uint64_t hash_vec(const std::vector<std::uint32_t> & v)
{
  std::uint64_t h = 1469598103934665603ull;
  for (auto x : v) { h = mix(h, x + 1); }
  return h;
}

static std::string jesc(const std::string & s)
{
  std::string o;
  for (unsigned char c : s)
    switch (c)
    {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      default:
        if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
  return o;
}

// Runs the body once and reports oracle failures, uncaught exceptions and leaks.
static void run_once(const Suite & s, Src & src, Ctx & ctx)
{
  try { s.body(src, ctx); }
  catch (std::exception & e) { ctx.fail(std::string("exception escaped the case: ") + e.what()); }
  catch (...) { ctx.fail("unknown exception escaped the case"); }
}

// Growth of the live heap over one execution of the case (the case's own Ctx is destroyed before measuring).
static long long growth_of(const Suite & s, const std::vector<std::uint32_t> & choices)
{
  auto before = live_bytes();
  {
    Src src(choices); Ctx ctx;
    run_once(s, src, ctx);
  }
  return static_cast<long long>(live_bytes()) - static_cast<long long>(before);
}

// Full evaluation: body + leak oracle.
static void evaluate(const Suite & s, Src & src, Ctx & ctx)
{
  auto before = live_bytes();
  {
    Ctx inner;
    inner.tracing = ctx.tracing; inner.live = ctx.live;
    run_once(s, src, inner);
    ctx.failed = inner.failed; ctx.nontrivial = inner.nontrivial;
    if (inner.failed) ctx.message = inner.message;
    if (ctx.tracing) ctx.trace << inner.trace.str();
    std::memcpy(ctx.labels, inner.labels, sizeof inner.labels); ctx.n_labels = inner.n_labels;
    if (inner.failed || !s.check_leaks || inner.leak_known) { return; }
  }
  // Cheap pre-filter: if the heap did not grow beyond what ctx and the recorder hold, there is no leak.
  auto after = live_bytes();
  if (after > before)
  {
    // something stayed allocated: a leak shows as growth in *every* repetition, a cache does not
    std::vector<std::uint32_t> choices = src.rec;
    long long g[4];
    for (auto & x : g) x = growth_of(s, choices);
    if (g[1] > 0 && g[2] > 0 && g[3] > 0 && g[2] == g[3])
      ctx.fail("memory leak: every repetition of the case leaves " + std::to_string(g[3]) + " bytes allocated");
  }
}

struct Shared // one per worker, in shared memory
{
  volatile std::uint64_t index;      // case being run
  volatile double started;
  volatile std::uint64_t done;       // cases completed
  volatile int state;                // 0 idle, 1 in case, 2 finished, 3 oracle failure at index
};

struct Outcome { bool failed = false; std::string kind; std::string trace; std::vector<std::uint32_t> rec; };

static std::string read_file(const std::string & p)
{
  std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str();
}

static std::string g_tmp; // scratch directory of this process

static std::string summarise_stderr(const std::string & e)
{
  std::istringstream is(e); std::string l, pick, first;
  while (std::getline(is, l))
  {
    if (l.empty()) continue;
    if (first.empty()) first = l;
    if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error:") != std::string::npos ||
        l.find("ssertion") != std::string::npos || l.find("oracle failed") != std::string::npos || l.find("terminate called") != std::string::npos ||
        l.find("ThreadSanitizer") != std::string::npos)
    { pick = l; break; }
  }
  return pick.empty() ? first : pick;
}

// Runs one case in a fresh child.  Never throws.
static Outcome run_isolated(const Suite & s, const std::vector<std::uint32_t> * choices, std::uint64_t seed,
                            bool tracing, unsigned timeout_s)
{
  static int counter = 0;
  std::string base = g_tmp + "/iso" + std::to_string(counter++);
  std::string errf = base + ".err", outf = base + ".out";
  std::fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    Ctx ctx; ctx.tracing = ctx.live = tracing;
    std::vector<std::uint32_t> empty;
    Src src = choices ? Src(*choices) : Src(seed);
    evaluate(s, src, ctx);
    {
      std::ofstream o(outf, std::ios::binary);
      o << (ctx.failed ? 1 : 0) << '\n' << src.rec.size();
      for (auto x : src.rec) o << ' ' << x;
      o << '\n' << ctx.message.size() << '\n' << ctx.message << ctx.trace.str();
    }
    _exit(ctx.failed ? 9 : 0);
  }
  Outcome r;
  double t0 = now_s();
  int st = 0; bool hung = false;
  for (;;)
  {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now_s() - t0 > timeout_s) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    usleep(300);
  }
  std::string out = read_file(outf), err = read_file(errf);
  unlink(outf.c_str()); unlink(errf.c_str());
  if (hung) { r.failed = true; r.kind = "hang"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { r.failed = false; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { r.failed = true; r.kind = "oracle"; r.trace = err; }
  else { r.failed = true; r.kind = "crash: " + summarise_stderr(err); r.trace = err; }
  if (!r.failed && tracing) r.trace = err;
  if (!out.empty())
  {
    std::istringstream is(out); int f; std::size_t n; is >> f >> n;
    r.rec.resize(n); for (auto & x : r.rec) is >> x;
    std::size_t ml = 0; is >> ml; is.get();
    std::string m(ml, 0); is.read(&m[0], static_cast<std::streamsize>(ml));
    std::string rest((std::istreambuf_iterator<char>(is)), {});
    if (r.kind == "oracle") r.kind = "oracle: " + m;
    r.trace = rest + r.trace;
  }
  else if (choices) r.rec = *choices;
  return r;
}

// choices of a case that crashes before they can be recorded: record them through a shared buffer.
// (Used only for the case found to fail.)
static std::vector<std::uint32_t> choices_of(const Suite & s, std::uint64_t seed, unsigned timeout_s)
{
  const std::size_t cap = 1u << 20;
  auto * sh = static_cast<std::uint32_t *>(mmap(nullptr, cap * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    // draw generously: an over-long choice sequence is harmless, the tail is unused
    std::vector<std::uint32_t> dummy;
    static Src * cur = nullptr; static std::uint32_t * shp = sh;
    Ctx ctx; Src src(seed); cur = &src;
    auto dump = +[](int sig) {
      auto n = cur->rec.size(); if (n > (1u << 20) - 1) n = (1u << 20) - 1;
      shp[0] = static_cast<std::uint32_t>(n);
      std::memcpy(shp + 1, cur->rec.data(), n * 4);
      if (sig) _exit(7);
    };
    for (int sg : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTERM, SIGALRM}) signal(sg, dump);
    alarm(timeout_s);
    static void (*dp)(int) = dump;
    std::atexit(+[] { dp(0); });
    evaluate(s, src, ctx);
    dump(0);
    _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  std::vector<std::uint32_t> r(sh + 1, sh + 1 + sh[0]);
  munmap(sh, cap * 4);
  return r;
}

static std::vector<std::uint32_t> shrink(const Suite & s, std::vector<std::uint32_t> best, double budget_s,
                                         std::uint64_t & attempts)
{
  double t0 = now_s();
  unsigned ncpu = std::max(1u, std::min(8u, static_cast<unsigned>(sysconf(_SC_NPROCESSORS_ONLN))));
  (void)ncpu;
  auto fails = [&](const std::vector<std::uint32_t> & c)
  {
    attempts++;
    auto o = run_isolated(s, &c, 0, false, s.case_timeout_s < 10 ? s.case_timeout_s : 10);
    return o.failed && o.kind != "hang";
  };
  bool was_hang = run_isolated(s, &best, 0, false, s.case_timeout_s).kind == "hang";
  if (was_hang) return best; // shrinking hangs costs a timeout per attempt
  bool progress = true;
  while (progress && now_s() - t0 < budget_s)
  {
    progress = false;
    for (std::size_t k = std::max<std::size_t>(1, best.size() / 2); k >= 1; k /= 2)
    {
      for (std::size_t i = 0; i + k <= best.size() && now_s() - t0 < budget_s;)
      {
        auto c = best;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + k));
        if (fails(c)) { best = c; progress = true; }
        else i += k;
      }
      if (k == 1) break;
    }
    for (std::size_t i = 0; i < best.size() && now_s() - t0 < budget_s; i++)
    {
      if (best[i] == 0) continue;
      for (std::uint32_t v : {0u, best[i] / 2, best[i] - 1})
      {
        if (v >= best[i]) continue;
        auto c = best; c[i] = v;
        if (fails(c)) { best = c; progress = true; break; }
      }
    }
  }
  while (!best.empty() && best.back() == 0) { best.pop_back(); }
  return best;
}

struct SuiteResult
{
  std::uint64_t evaluations = 0, nontrivial = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, std::uint64_t> labels;
  std::vector<std::string> samples;
  bool failed = false; std::uint64_t fail_index = 0; unsigned fail_worker = 0;
  std::uint64_t unreproduced = 0;
  std::string unreproduced_what;
};

static std::uint64_t case_seed(std::uint64_t seed, const std::string & suite, std::uint64_t i)
{
  return mix(mix(seed, hash_str(suite)), i);
}

static void worker_loop(const Suite & s, std::uint64_t seed, std::uint64_t total, unsigned w, unsigned nw,
                        std::uint64_t first, std::uint64_t last, Shared * sh, const std::string & outfile, bool reporting)
{
  std::ofstream o;
  if (reporting) o.open(outfile, std::ios::binary | std::ios::app);
  std::map<std::string, std::uint64_t> labels;
  std::uint64_t evals = 0, nontriv = 0;
  auto flush = [&]
  {
    if (!reporting) return;
    o << "E " << evals << ' ' << nontriv << '\n';
    for (auto & l : labels) o << "L " << l.second << ' ' << l.first << '\n';
    o.flush(); evals = nontriv = 0; labels.clear();
  };
  for (std::uint64_t i = first; i < total && i <= last; i += nw)
  {
    sh->index = i; sh->started = now_s(); sh->state = 1;
    Src src(case_seed(seed, s.name, i));
    src.rec.reserve(4096);
    Ctx ctx;
    ctx.tracing = reporting && (i / nw) < 64 && w == 0;
    evaluate(s, src, ctx);
    evals++;
    if (ctx.failed) { std::fprintf(stderr, "oracle failed: %s\n", ctx.message.c_str()); std::fflush(stderr); flush(); sh->state = 3; o.flush(); _exit(9); }
    for (unsigned k = 0; k < ctx.n_labels; k++) labels[ctx.labels[k]]++;
    if (ctx.nontrivial)
    {
      nontriv++;
      if (reporting)
      {
        o << "H " << hash_vec(src.rec) << '\n';
        if (ctx.tracing) { o << "S " << jesc(ctx.trace.str().substr(0, 1500)) << '\n'; }
      }
    }
    sh->done++;
    sh->state = 0;
    if ((evals & 255u) == 0) flush();
  }
  flush();
  sh->state = 2;
  o.close();
  _exit(0);
}

static bool prefix_reproduces(const Suite & s, std::uint64_t seed, std::uint64_t total, unsigned w, unsigned nw, std::uint64_t idx)
{
  auto * sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::memset(sh, 0, sizeof *sh);
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    worker_loop(s, seed, total, w, nw, w, idx, sh, "", false);
  }
  int st; bool failed = false;
  for (;;)
  {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) { failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0); break; }
    if (sh->state == 1 && now_s() - sh->started > s.case_timeout_s + 5.)
    { kill(-pid, SIGKILL); waitpid(pid, &st, 0); failed = true; break; }
    usleep(2000);
  }
  munmap(sh, sizeof *sh);
  return failed;
}

static SuiteResult run_suite(const Suite & s, std::uint64_t seed, std::uint64_t total, double deadline)
{
  SuiteResult res;
  unsigned nw = s.workers ? s.workers : std::max(1u, std::min(8u, static_cast<unsigned>(sysconf(_SC_NPROCESSORS_ONLN))));
  if (nw > total) nw = static_cast<unsigned>(total);
  auto * sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::memset(static_cast<void*>(sh), 0, sizeof(Shared) * nw);
  std::vector<pid_t> pids(nw, 0);
  std::vector<std::uint64_t> next(nw);
  auto file_of = [&](unsigned w) { return g_tmp + "/" + s.name + "." + std::to_string(w); };
  auto start = [&](unsigned w, std::uint64_t first)
  {
    sh[w].state = 0; sh[w].started = now_s();
    std::fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
      setpgid(0, 0);
      int fd = open((file_of(w) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
      worker_loop(s, seed, total, w, nw, first, ~0ull, &sh[w], file_of(w), true);
    }
    pids[w] = p;
  };
  for (unsigned w = 0; w < nw; w++) { unlink(file_of(w).c_str()); start(w, w); }
  unsigned running = nw;
  std::vector<bool> dead(nw, false);
  bool stop = false;
  std::set<std::uint64_t> handled;
  while (running > 0)
  {
    bool slept = false;
    for (unsigned w = 0; w < nw; w++)
    {
      if (dead[w]) continue;
      int st = 0; pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool hung = false;
      if (r == 0)
      {
        if (stop || now_s() > deadline) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); dead[w] = true; running--; continue; }
        if (sh[w].state == 1 && now_s() - sh[w].started > s.case_timeout_s)
        { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); hung = true; }
        else { continue; }
      }
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].state == 2) { dead[w] = true; running--; continue; }
      // failure of case sh[w].index
      std::uint64_t idx = sh[w].index;
      (void)hung;
      // reproduce alone, three times
      auto cs = case_seed(seed, s.name, idx);
      int repro = 0;
      std::string what = summarise_stderr(read_file(file_of(w) + ".err"));
      for (int k = 0; k < 3; k++) { if (run_isolated(s, nullptr, cs, false, s.case_timeout_s * 2).failed) repro++; else break; }
      if (repro == 3) { res.failed = true; res.fail_index = idx; res.fail_worker = ~0u; stop = true; dead[w] = true; running--; continue; }
      int prep = 0;
      for (int k = 0; k < 3; k++) { if (prefix_reproduces(s, seed, total, w, nw, idx)) prep++; else break; }
      if (prep == 3) { res.failed = true; res.fail_index = idx; res.fail_worker = w; res.unreproduced_what = what; stop = true; dead[w] = true; running--; continue; }
      res.unreproduced++;
      res.unreproduced_what = "case " + std::to_string(idx) + ": " + what;
      if (res.unreproduced > 20) { dead[w] = true; running--; continue; }
      start(w, idx + nw);
    }
    if (!slept) usleep(2000);
  }
  for (unsigned w = 0; w < nw; w++)
  {
    std::ifstream f(file_of(w)); std::string l;
    while (std::getline(f, l))
    {
      if (l.size() < 2) continue;
      std::istringstream is(l.substr(2));
      if (l[0] == 'E') { std::uint64_t a = 0, b = 0; is >> a >> b; res.evaluations += a; res.nontrivial += b; }
      else if (l[0] == 'H') { std::uint64_t h = 0; is >> h; res.distinct.insert(h); }
      else if (l[0] == 'L') { std::uint64_t n = 0; std::string k; is >> n >> k; res.labels[k] += n; }
      else if (l[0] == 'S') { if (res.samples.size() < 4) res.samples.push_back(l.substr(2)); }
    }
    unlink(file_of(w).c_str()); unlink((file_of(w) + ".err").c_str());
  }
  munmap(sh, sizeof(Shared) * nw);
  return res;
}

static void write_replay(const std::string & path, const char * property, const Suite & s, const std::vector<std::uint32_t> & c,
                         const Outcome & o, std::uint64_t seed, std::uint64_t idx, const std::string & tag)
{
  std::ofstream f(path);
  f << "property " << property << "\nvariant " << tag << "\nsuite " << s.name << "\nseed " << seed << "\ncase " << idx << "\nchoices " << c.size();
  for (auto x : c) f << ' ' << x;
  f << "\n# " << o.kind << "\n";
  std::istringstream is(o.trace); std::string l; int n = 0;
  while (std::getline(is, l) && n++ < 400) f << "# " << l << '\n';
}

int run_main(int argc, char ** argv, const char * property, std::vector<Suite> suites)
{
  std::string evidence, replay, replay_dir = ".", only, tag = "-";
  std::uint64_t seed = 1; std::string tier = "quick"; double scale = 1.0; double budget = 0; std::string build_note;
  long long one = -1;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = std::strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") tier = val();
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay") replay = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--suite") only = val();
    else if (a == "--replay-tag") tag = val();
    else if (a == "--scale") scale = std::strtod(val().c_str(), nullptr);
    else if (a == "--budget") budget = std::strtod(val().c_str(), nullptr);
    else if (a == "--case") one = std::strtoll(val().c_str(), nullptr, 10);
  }
  char tmpl[] = "/tmp/pbt.XXXXXX";
  g_tmp = mkdtemp(tmpl);
  struct Cleanup { ~Cleanup() { rmdir(g_tmp.c_str()); } } cleanup;
  double t0 = now_s();
  if (budget == 0) budget = tier == "thorough" ? 700 : 300;

  if (!replay.empty())
  {
    std::ifstream f(replay); std::string k, sname; std::vector<std::uint32_t> c; std::uint64_t rs = 0, rc = 0; bool prefix = false; unsigned pw = 0, pn = 1;
    std::string line;
    while (std::getline(f, line))
    {
      std::istringstream is(line); is >> k;
      if (k == "suite") is >> sname;
      else if (k == "seed") is >> rs;
      else if (k == "case") is >> rc;
      else if (k == "prefix") { prefix = true; is >> pw >> pn; }
      else if (k == "choices") { std::size_t n; is >> n; c.resize(n); for (auto & x : c) is >> x; }
    }
    for (auto & s : suites) if (s.name == sname)
    {
      if (prefix)
      {
        bool r = prefix_reproduces(s, rs, ~0ull, pw, pn, rc);
        std::cout << (r ? "reproduced\n" : "not reproduced\n");
        if (r) std::cout << "VIOLATION property=" << property << " replay=" << replay << std::endl;
        return r ? 1 : 0;
      }
      auto o = run_isolated(s, &c, 0, true, s.case_timeout_s * 2);
      std::cout << o.kind << "\n" << o.trace << "\n";
      if (o.failed) { std::cout << "VIOLATION property=" << property << " replay=" << replay << std::endl; return 1; }
      std::cout << "passes\n";
      return 0;
    }
    std::cerr << "unknown suite " << sname << "\n";
    return 2;
  }
  if (one >= 0)
  {
    for (auto & s : suites) if (only == s.name)
    {
      auto o = run_isolated(s, nullptr, case_seed(seed, s.name, static_cast<std::uint64_t>(one)), true, s.case_timeout_s);
      std::cout << (o.failed ? o.kind : "passes") << "\n" << o.trace << "\n";
      return o.failed;
    }
    return 2;
  }

  std::vector<SuiteResult> results;
  int rc = 0;
  std::string violation;
  double per = budget / static_cast<double>(suites.size());
  for (auto & s : suites)
  {
    if (!only.empty() && s.name != only) { results.emplace_back(); continue; }
    auto total = static_cast<std::uint64_t>(static_cast<double>(tier == "thorough" ? s.thorough : s.quick) * scale);
    if (total == 0) total = 1;
    double ts = now_s();
    (void)per;
    results.push_back(run_suite(s, seed, total, t0 + budget));
    auto & r = results.back();
    std::cout << "suite " << s.name << ": " << r.evaluations << " cases, " << r.distinct.size() << " distinct non-trivial, "
              << (now_s() - ts) << " s";
    for (auto & l : r.labels) std::cout << ", " << l.first << "=" << l.second;
    if (r.unreproduced) std::cout << ", UNREPRODUCED failures=" << r.unreproduced << " (" << r.unreproduced_what << ")";
    std::cout << std::endl;
    if (r.failed)
    {
      rc = 1;
      std::string path = replay_dir + "/" + property + "-" + s.name + ".replay";
      if (r.fail_worker == ~0u)
      {
        auto cs = case_seed(seed, s.name, r.fail_index);
        auto first = run_isolated(s, nullptr, cs, true, s.case_timeout_s * 2);
        auto choices = first.kind.rfind("oracle", 0) == 0 ? first.rec : choices_of(s, cs, s.case_timeout_s);
        if (!run_isolated(s, &choices, 0, false, s.case_timeout_s * 2).failed)
        { // could not be captured as a choice list: replay by seed
          std::ofstream f(path); unsigned nw = 1;
          f << "property " << property << "\nvariant " << tag << "\nsuite " << s.name << "\nseed " << seed << "\ncase " << r.fail_index
            << "\nprefix " << r.fail_index << ' ' << nw << "\n# " << first.kind << "\n";
        }
        else
        {
          std::uint64_t attempts = 0;
          auto small = shrink(s, choices, 45, attempts);
          int ok = 0; Outcome o;
          for (int k = 0; k < 3; k++) { o = run_isolated(s, &small, 0, true, s.case_timeout_s * 2); if (o.failed) ok++; }
          if (ok != 3) { small = choices; o = first; }
          write_replay(path, property, s, small, o, seed, r.fail_index, tag);
          std::cout << "  " << o.kind << "\n  shrunk from " << choices.size() << " to " << small.size() << " choices in " << attempts << " attempts\n";
          std::istringstream is(o.trace); std::string l; int n = 0;
          while (std::getline(is, l) && n++ < 60) std::cout << "  | " << l << '\n';
        }
      }
      else
      {
        std::ofstream f(path); unsigned nw = s.workers ? s.workers : std::max(1u, std::min(8u, static_cast<unsigned>(sysconf(_SC_NPROCESSORS_ONLN))));
        f << "property " << property << "\nvariant " << tag << "\nsuite " << s.name << "\nseed " << seed << "\ncase " << r.fail_index
          << "\nprefix " << r.fail_worker << ' ' << nw << "\n# needs the preceding cases of the same worker\n# " << r.unreproduced_what << "\n";
        std::cout << "  " << r.unreproduced_what << "\n";
      }
      violation = "VIOLATION property=" + std::string(property) + " replay=" + path;
      break;
    }
  }
  if (!evidence.empty())
  {
    std::ofstream f(evidence);
    std::uint64_t ev = 0, dn = 0, nt = 0, un = 0; std::string rule;
    for (std::size_t i = 0; i < results.size(); i++)
    {
      ev += results[i].evaluations; dn += results[i].distinct.size(); nt += results[i].nontrivial; un += results[i].unreproduced;
      rule += (i ? " || " : "") + suites[i].name + ": " + suites[i].describes;
    }
    f << "{\n \"property\": \"" << property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"nontrivial_evaluations\": " << nt
      << ",\n  \"distinct_nontrivial\": " << dn
      << ",\n  \"unreproduced_failures\": " << un
      << ",\n  \"rule\": \"" << jesc(rule + " || distinct = different recorded choice sequence") << "\",\n  \"suites\": {";
    for (std::size_t i = 0; i < results.size(); i++)
    {
      f << (i ? "," : "") << "\n   \"" << suites[i].name << "\": {\"evaluations\": " << results[i].evaluations
        << ", \"distinct_nontrivial\": " << results[i].distinct.size() << ", \"labels\": {";
      bool first = true;
      for (auto & l : results[i].labels) { f << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
      f << "}}";
    }
    f << "\n  },\n  \"samples\": [";
    bool first = true;
    for (std::size_t i = 0; i < results.size(); i++)
      for (auto & x : results[i].samples)
      { f << (first ? "" : ",") << "\n   \"" << suites[i].name << ": " << x << "\""; first = false; }
    f << "\n  ]\n },\n \"wall_s\": " << (now_s() - t0) << ",\n \"violations\": " << (rc ? 1 : 0) << "\n}\n";
  }
  if (!violation.empty()) std::cout << violation << std::endl;
  return rc;
}

}
