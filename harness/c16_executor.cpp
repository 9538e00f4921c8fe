// C16: random trees of coroutines of every kind spread over several executors.  Every step awaits something that completes on some
// executor; afterwards the coroutine has to be back on its own, and to report it.
// Compiled twice: three io_contexts and strands on them, polled by hand in a random order (default), or strands of a thread pool (C16_POOL).
#include "env.hpp"
#include <boost/cobalt.hpp>
#include <boost/cobalt/composition.hpp>
#include <boost/asio/strand.hpp>
#include <boost/asio/thread_pool.hpp>
#include <boost/asio/steady_timer.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/detached.hpp>
#include <boost/asio/experimental/channel.hpp>
#include <atomic>
#include <deque>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <latch>
#include <random>
using namespace env;
using pbt::Src; using pbt::Ctx;
using namespace std::chrono_literals;

#ifdef C16_POOL
static constexpr bool pool_mode = true;
#else
static constexpr bool pool_mode = false;
#endif
static constexpr int n_own = pool_mode ? 4 : 6;     // executors a coroutine may have
static constexpr int n_ex = pool_mode ? 5 : 6;      // executors operations may complete on (the pool itself, too)

struct rng
{
  Src * src = nullptr; std::uint64_t s = 0; // the pool's coroutines draw from a generator of their own: the schedule isn't theirs to choose
  std::uint32_t below(std::uint32_t n) { if (src) return src->below(n); s += 0x9E3779B97F4A7C15ull; auto z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return std::uint32_t((z ^ (z >> 31)) >> 8) % n; }
  rng child() { return src ? *this : rng{nullptr, (std::uint64_t(below(1u << 30)) << 20) + 17}; }
};

struct world
{
  Ctx & c; cobalt::executor ex[8]; std::function<bool(int)> on; // on(i): is this running on executor i?
  std::atomic<int> live{0}, nodes{0}, foreign{0}, roots_done{0}, steps{0}; int roots = 0; long long touched[8] = {}; int deflt = -1; // index of the thread's executor, -1: none, -2: not to be used
  std::mutex m; std::string wrong; std::atomic<std::uint32_t> kinds{0};
  world(Ctx & c) : c(c) {}
  void bad(std::string s) { std::lock_guard l(m); if (wrong.empty()) wrong = std::move(s); }
  void here(int id, const char * what) { if (!on(id)) bad(std::string("a coroutine continues on another executor than its own after: ") + what); touched[id]++; steps++; }
};
struct node
{
  world & w; int id; bool strict; // strict: has resumed on its executor (before that it runs where it was started)
  node(world & w, int id, bool strict) : w(w), id(id), strict(strict) { w.live++; w.nodes++; if (strict) w.here(id, "start"); }
  ~node() { w.live--; }
  void after(const char * what, int j = -1) { strict = true; w.here(id, what); if (j >= 0 && j != id) w.foreign++; }
  void child(bool s, const char * what) { if (s) after(what); }
};

static cobalt::promise<bool> prom(world & w, asio::executor_arg_t, cobalt::executor ex, int id, rng r, int depth, bool strict);
static cobalt::promise<bool> prom_default(world & w, int id, rng r, int depth, bool strict);
static cobalt::task<bool> tsk(world & w, int id, rng r, int depth, bool strict);
static cobalt::generator<bool> gen(world & w, asio::executor_arg_t, cobalt::executor ex, int id, rng r, int depth, bool strict);
static cobalt::generator<bool, int> gen_push(asio::executor_arg_t, cobalt::executor ex, world & w, int id, rng r, int depth, bool strict);
static cobalt::generator<bool> gen_default(world & w, int id, rng r, int depth, bool strict);
static cobalt::detached det(world & w, int id, asio::executor_arg_t, cobalt::executor ex, rng r, int depth, bool strict);

struct comp final : cobalt::op<bool> { world & w; int id; rng r; int depth; bool strict; comp(world & w, int id, rng r, int depth, bool strict) : w(w), id(id), r(r), depth(depth), strict(strict) {} void initiate(cobalt::completion_handler<bool>) override; };

static cobalt::promise<int> writer(asio::executor_arg_t, cobalt::executor, world & w, node & n, cobalt::channel<int> & ch, int k)
{
  for (int i = 0; i < k; i++) { co_await ch.write(i); if (n.strict) w.here(n.id, "channel write"); } // eager: the first write may be in the first part
  co_return k;
}

#define STEP                                                                                                                            \
  {                                                                                                                                     \
    const int j = int(r.below(n_ex)), k = int(r.below(n_ex)); const int kind = int(r.below(depth > 0 ? 22 : 10)); w.kinds |= 1u << kind; \
    switch (kind)                                                                                                                       \
    {                                                                                                                                   \
      case 0: case 1: co_await asio::post(w.ex[j], cobalt::use_op); n.after("post", j); break;                                          \
      case 2: { asio::steady_timer t(w.ex[j], asio::steady_timer::time_point::min()); co_await t.async_wait(cobalt::use_op); n.after("timer", j); break; } \
      case 3: { auto x = co_await cobalt::left_race(asio::post(w.ex[j], cobalt::use_op), asio::post(w.ex[k], cobalt::use_op)); (void)x; n.after("race", j); break; } \
      case 4: { auto x = co_await cobalt::gather(asio::post(w.ex[j], cobalt::use_op), asio::post(w.ex[k], cobalt::use_op)); (void)x; n.after("gather", j); break; } \
      case 5: { co_await cobalt::join(asio::post(w.ex[j], cobalt::use_op), asio::post(w.ex[k], cobalt::use_op)); n.after("join", j); break; } \
      case 6: { auto e = co_await cobalt::this_coro::executor; if (e != w.ex[n.id]) w.bad("a coroutine reports another executor than its own"); break; } \
      case 7: { asio::steady_timer t(w.ex[pool_mode ? n.id : j], 1h); auto x = co_await cobalt::left_race(t.async_wait(cobalt::use_op), asio::post(w.ex[k], cobalt::use_op)); (void)x; n.after("race with a cancelled loser", j); break; } \
      case 8: { std::vector<cobalt::promise<bool>> v; v.push_back(prom(w, asio::executor_arg, w.ex[n.id], n.id, r.child(), 0, n.strict)); v.push_back(prom(w, asio::executor_arg, w.ex[n.id], n.id, r.child(), 0, n.strict)); \
                auto x = co_await cobalt::join(v); for (auto s : x) if (s) n.strict = true; if (n.strict) n.after("join of promises"); break; }  \
      case 9: if (!pool_mode && w.deflt >= -1) { int d = int(r.below(3)); cobalt::this_thread::set_executor(w.ex[d]); w.deflt = d; if (cobalt::this_thread::get_executor() != w.ex[d]) w.bad("the thread's executor isn't the one that was set"); } break; \
      case 10: { auto s = co_await prom(w, asio::executor_arg, w.ex[n.id], n.id, r.child(), depth - 1, n.strict); n.child(s, "promise"); break; } \
      case 11: if (w.deflt >= 0) { const int d = w.deflt; auto p = prom_default(w, d, r.child(), depth - 1, n.strict && w.on(d)); if (d == n.id) { auto s = co_await p; n.child(s, "promise on the default executor"); } else +std::move(p); } break; \
      case 12: { auto s = co_await tsk(w, n.id, r.child(), depth - 1, n.strict); n.child(s, "task"); break; }                           \
      case 13: { auto g = gen(w, asio::executor_arg, w.ex[n.id], n.id, r.child(), depth - 1, n.strict); while (g) { auto s = co_await g; n.child(s, "generator"); } break; } \
      case 14: { auto g = gen_push(asio::executor_arg, w.ex[n.id], w, n.id, r.child(), depth - 1, n.strict); int q = 0; while (g) { auto s = co_await g(q++); n.child(s, "generator with push"); } break; } \
      case 15: if (w.deflt == n.id) { auto g = gen_default(w, n.id, r.child(), depth - 1, n.strict); while (g) { auto s = co_await g; n.child(s, "generator on the default executor"); } } break; \
      case 16: case 17: { int o = int(r.below(n_own)); auto x = co_await cobalt::spawn(w.ex[o], tsk(w, o, r.child(), depth - 1, true), cobalt::use_op); (void)x; n.after("spawn", o); break; } \
      case 18: if (pool_mode) det(w, n.id, asio::executor_arg, w.ex[n.id], r.child(), depth - 1, n.strict); else { int o = int(r.below(n_own)); det(w, o, asio::executor_arg, w.ex[o], r.child(), depth - 1, false); } break; \
      case 19: { auto s = co_await comp(w, n.id, r.child(), depth - 1, false); n.child(s, "composed operation"); break; }              \
      case 20: { cobalt::wait_group wg; for (int i = 0; i < 2; i++) wg.push_back([](cobalt::promise<bool> p, asio::executor_arg_t, cobalt::executor) -> cobalt::promise<void> { auto s = co_await p; (void)s; }(prom(w, asio::executor_arg, w.ex[n.id], n.id, r.child(), depth - 1, n.strict), asio::executor_arg, w.ex[n.id])); \
                 co_await asio::post(w.ex[n.id], cobalt::use_op); n.after("post"); co_await wg.wait(); n.after("wait group"); break; } \
      case 21: { cobalt::channel<int> ch(r.below(3), w.ex[n.id]); int q = 1 + int(r.below(3)); co_await asio::post(w.ex[n.id], cobalt::use_op); n.after("post"); auto p = writer(asio::executor_arg, w.ex[n.id], w, n, ch, q); \
                 for (int i = 0; i < q; i++) { auto v = co_await ch.read(); if (v != i) w.bad("wrong value from a channel"); n.after("channel read"); } auto z = co_await p; (void)z; n.after("writer"); break; } \
    }                                                                                                                                   \
  }
#define BODY node n{w, id, strict}; for (int steps = int(r.below(5)); steps-- > 0;) STEP

static cobalt::promise<bool> prom(world & w, asio::executor_arg_t, cobalt::executor, int id, rng r, int depth, bool strict) { BODY co_return n.strict; }
static cobalt::promise<bool> prom_default(world & w, int id, rng r, int depth, bool strict) { BODY co_return n.strict; }
static cobalt::task<bool> tsk(world & w, int id, rng r, int depth, bool strict) { BODY co_return n.strict; }
static cobalt::generator<bool> gen(world & w, asio::executor_arg_t, cobalt::executor, int id, rng r, int depth, bool strict)
{ node n{w, id, strict}; for (int steps = int(r.below(4)); steps-- > 0;) { STEP co_yield n.strict; } co_return n.strict; }
static cobalt::generator<bool> gen_default(world & w, int id, rng r, int depth, bool strict)
{ node n{w, id, strict}; for (int steps = int(r.below(4)); steps-- > 0;) { STEP co_yield n.strict; } co_return n.strict; }
static cobalt::generator<bool, int> gen_push(asio::executor_arg_t, cobalt::executor, world & w, int id, rng r, int depth, bool strict)
{ node n{w, id, strict}; for (int steps = int(r.below(4)); steps-- > 0;) { STEP auto p = co_yield n.strict; (void)p; if (n.strict) w.here(id, "yield"); } co_return n.strict; }
static cobalt::detached det(world & w, int id, asio::executor_arg_t, cobalt::executor, rng r, int depth, bool strict) { BODY }
void comp::initiate(cobalt::completion_handler<bool>) // may only await operations
{
  auto & w = this->w; auto id = this->id; auto r = this->r; auto depth = this->depth; auto strict = this->strict; node n{w, id, strict};
  for (int steps = int(r.below(5)); steps-- > 0;)
  {
    const int j = int(r.below(n_ex));
    switch (r.below(depth > 0 ? 4 : 3))
    {
      case 0: co_await asio::post(w.ex[j], cobalt::use_op); n.after("post", j); break;
      case 1: { asio::steady_timer t(w.ex[j], asio::steady_timer::time_point::min()); co_await t.async_wait(cobalt::use_op); n.after("timer", j); break; }
      case 2: { auto e = co_await cobalt::this_coro::executor; if (e != w.ex[n.id]) w.bad("a composed operation reports another executor than its own"); break; }
      case 3: { auto s = co_await comp(w, n.id, r.child(), depth - 1, false); n.child(std::get<0>(s), "composed operation"); break; }
    }
  }
  co_return {n.strict};
}

static void names(world & w, Ctx & c)
{
  static const char * name[] = {"post", "post", "timer", "race", "gather", "join", "report", "cancelled_loser", "join_promises", "set_executor", "promise", "promise_default", "task", "generator", "generator_push", "generator_default", "spawn", "spawn", "detached", "composition", "wait_group", "channel"};
  for (int i = 0; i < 22; i++) if (w.kinds & (1u << i)) c.label(name[i]);
}

#ifndef C16_POOL
static void affinity(Src & src, Ctx & c)
{
  checked_resource res; auto prev = cobalt::this_thread::set_default_resource(&res);
  {
    asio::io_context ctx[3]; world w(c); int cur = -1; using strand = asio::strand<asio::io_context::executor_type>;
    strand st[3] = {asio::make_strand(ctx[0]), asio::make_strand(ctx[1]), asio::make_strand(ctx[0])}; static const int of[] = {0, 1, 2, 0, 1, 0};
    for (int i = 0; i < 3; i++) { w.ex[i] = ctx[i].get_executor(); w.ex[3 + i] = st[i]; }
    w.on = [&](int i) { return cur == of[i] && (i < 3 || st[i - 3].running_in_this_thread()); };
    { asio::io_context gone; cobalt::this_thread::set_executor(gone.get_executor()); }
    PBT_CHECK(c, !cobalt::this_thread::has_executor(), "the executor of a destroyed context remains");
    switch (src.below(3)) { case 0: w.deflt = int(src.below(6)); cobalt::this_thread::set_executor(w.ex[w.deflt]); break; case 1: w.deflt = -1; break; case 2: w.deflt = -2; c.label("no_thread_executor"); break; }
    rng r{&src};
    w.roots = 1 + int(src.below(3));
    for (int k = 0; k < w.roots; k++)
    {
      int o = int(src.below(6));
      if (src.flip()) { int h = int(src.below(6)); cobalt::spawn(w.ex[o], tsk(w, o, r, 2, true), asio::bind_executor(w.ex[h], [&w, h](std::exception_ptr e, bool) { if (e) w.bad("a task failed: " + ep_name(e)); if (!w.on(h)) w.bad("a spawned task completes on another executor than the handler's"); w.roots_done++; })); }
      else { det(w, o, asio::executor_arg, w.ex[o], r, 2, false); w.roots_done++; }
    }
    for (int idle = 0, guard = 0; idle < 6 && guard < 200000 && !c.failed && w.wrong.empty(); guard++)
    {
      cur = int(src.below(3)); ctx[cur].restart(); std::size_t n = 0;
      if (src.flip()) n = ctx[cur].poll_one(); else n = ctx[cur].poll();
      cur = -1; if (n) { idle = 0; continue; }
      idle++; for (int i = 0; i < 3; i++) { cur = i; ctx[i].restart(); if (ctx[i].poll_one()) { idle = 0; break; } } cur = -1;
    }
    PBT_CHECK(c, w.wrong.empty(), w.wrong);
    if (!c.failed) { PBT_CHECK(c, w.live == 0, w.live << " coroutines never ended"); PBT_CHECK(c, w.roots_done == w.roots, "a completion is missing"); }
    if (w.foreign > 3) c.mark_nontrivial();
    names(w, c);
  }
  cobalt::this_thread::set_default_resource(prev);
  if (!c.failed) { PBT_CHECK(c, res.bad == 0, res.what); PBT_CHECK(c, res.live.empty(), "memory of the thread's resource never returned"); }
}

// Several threads set and read their executor and resource, one command at a time.
struct worker
{
  std::mutex m; std::condition_variable cv; std::function<void()> job; bool stop = false, busy = false; std::thread th;
  worker() : th([this] { std::unique_lock l(m); while (true) { cv.wait(l, [&] { return job || stop; }); if (!job) return; auto j = std::move(job); job = nullptr; l.unlock(); j(); j = nullptr; l.lock(); busy = false; cv.notify_all(); } }) {}
  void operator()(std::function<void()> j) { std::unique_lock l(m); job = std::move(j); busy = true; cv.notify_all(); cv.wait(l, [&] { return !busy; }); }
  ~worker() { { std::lock_guard l(m); stop = true; cv.notify_all(); } th.join(); }
};
static void this_thread(Src & src, Ctx & c)
{
  struct model { int ex = -1; cobalt::pmr::memory_resource * res; };
  checked_resource res[4]; std::unique_ptr<asio::io_context> ctx[4]; for (auto & x : ctx) x = std::make_unique<asio::io_context>();
  cobalt::executor ex[4];
  auto make = [&](int i) { if (src.flip()) ex[i] = ctx[i]->get_executor(); else ex[i] = asio::make_strand(*ctx[i]); };
  for (int i = 0; i < 4; i++) make(i);
  {
    std::vector<std::unique_ptr<worker>> ths; std::vector<model> ms; int moves = 0;
    auto check = [&](std::size_t t) { auto & m = ms[t]; (*ths[t])([&]
      {
        PBT_CHECK(c, cobalt::this_thread::get_default_resource() == m.res, "a thread's resource isn't the one it set");
        PBT_CHECK(c, cobalt::this_thread::get_allocator().resource() == m.res, "a thread's allocator doesn't use its resource");
        PBT_CHECK(c, cobalt::this_thread::has_executor() == (m.ex >= 0), "has_executor");
        if (m.ex >= 0 && cobalt::this_thread::has_executor()) PBT_CHECK(c, cobalt::this_thread::get_executor() == ex[m.ex], "a thread's executor isn't the one it set");
        else if (m.ex < 0) { bool threw = false; try { (void)cobalt::this_thread::get_executor(); } catch (asio::bad_executor &) { threw = true; } catch (...) {} PBT_CHECK(c, threw, "get_executor without executor doesn't throw bad_executor"); }
      }); };
    for (int steps = 3 + int(src.below(30)); steps-- && !c.failed;)
    {
      if (ths.empty() || (ths.size() < 4 && src.chance(1, 6))) { ths.push_back(std::make_unique<worker>()); ms.push_back({-1, cobalt::pmr::get_default_resource()}); c.log("new thread"); check(ms.size() - 1); /* takes the global resource when first asked */ }
      auto t = src.below(std::uint32_t(ths.size())); auto & m = ms[t];
      switch (src.below(7))
      {
        case 0: case 1: { int k = int(src.below(4)); c.log("thread ", t, " sets resource ", k); (*ths[t])([&] { auto old = cobalt::this_thread::set_default_resource(&res[k]); PBT_CHECK(c, old == m.res, "set_default_resource returns something else than the former one"); }); m.res = &res[k]; moves++; break; }
        case 2: case 3: { int k = int(src.below(4)); c.log("thread ", t, " sets executor ", k); (*ths[t])([&] { cobalt::this_thread::set_executor(ex[k]); }); m.ex = k; moves++; break; }
        case 4: // a context ends
        {
          int k = int(src.below(4)); bool elsewhere = false; for (std::size_t o = 0; o < ms.size(); o++) if (o != t && ms[o].ex == k) elsewhere = true; if (elsewhere) break; // that thread would be left with a dangling executor
          c.log("thread ", t, " destroys context ", k); c.label("context_destroyed"); ex[k] = cobalt::executor(); (*ths[t])([&] { ctx[k].reset(); }); if (m.ex == k) m.ex = -1; for (std::size_t o = 0; o < ths.size(); o++) check(o); ctx[k] = std::make_unique<asio::io_context>(); make(k); break;
        }
        case 5: // a coroutine takes what the thread has now
        {
          if (m.ex < 0) { (*ths[t])([&] { bool threw = false; try { auto p = [](int) -> cobalt::promise<void> { co_return; }(1); (void)p; } catch (asio::bad_executor &) { threw = true; } PBT_CHECK(c, threw, "a promise without executor is made"); }); c.label("no_executor"); break; }
          int other = int(src.below(4)); c.log("thread ", t, " runs a coroutine"); c.label("coroutine");
          (*ths[t])([&]
            {
              auto before = m.res;
              auto p = [](Ctx & c, cobalt::executor want, cobalt::pmr::memory_resource * r, cobalt::executor then, bool set) -> cobalt::promise<void>
              {
                auto e = co_await cobalt::this_coro::executor; PBT_CHECK(c, e == want, "a coroutine has another executor than its thread"); auto a = co_await cobalt::this_coro::allocator; PBT_CHECK(c, a.resource() == r, "a coroutine has another resource than its thread");
                if (set) { cobalt::this_thread::set_executor(then); auto e2 = co_await cobalt::this_coro::executor; PBT_CHECK(c, e2 == want, "a coroutine's executor changed"); }
              }(c, ex[m.ex], before, ex[other], other != m.ex);
              (void)p;
            });
          m.ex = other; break;
        }
        case 6: { c.log("global"); static checked_resource g; auto old = cobalt::pmr::set_default_resource(&g); for (std::size_t o = 0; o < ths.size(); o++) check(o); cobalt::pmr::set_default_resource(old); break; }
      }
      for (std::size_t o = 0; o < ths.size(); o++) check(o);
    }
    if (moves > 3 && ths.size() > 1) c.mark_nontrivial();
    ths.clear();
  }
}

int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C16", {
    {"affinity", "trees of up to three levels of promises, tasks, generators, detached, spawned and composed coroutines on six executors (three contexts, three strands) polled in a random order; non-trivial: four or more awaits completed by a foreign executor", 40000, 1000000, affinity},
    {"this_thread", "3-32 steps (set executor or resource, destroy a context, run a coroutine, replace the global resource) on up to four threads, checked on all threads after each; non-trivial: two threads and four settings", 4000, 100000, this_thread, false},
  });
}
#else
static void pool(Src & src, Ctx & c)
{
  world w(c);
  {
    asio::thread_pool tp(2 + src.below(3)); using strand = asio::strand<asio::thread_pool::executor_type>; std::vector<strand> st; for (int i = 0; i < n_own; i++) { st.push_back(asio::make_strand(tp)); w.ex[i] = st[i]; } w.ex[n_own] = tp.get_executor();
    w.on = [&](int i) { return st[i].running_in_this_thread(); }; w.deflt = -2; w.roots = 2 + int(src.below(6));
    std::vector<std::uint64_t> seeds; std::vector<std::pair<int, int>> plan; for (int k = 0; k < w.roots; k++) { plan.push_back({int(src.below(n_own)), int(src.below(n_own))}); seeds.push_back(src.below(1u << 31)); }
    for (int k = 0; k < w.roots; k++)
    {
      auto [o, h] = plan[k];
      if (seeds[k] & 1) cobalt::spawn(w.ex[o], tsk(w, o, rng{nullptr, seeds[k]}, 2, true), asio::bind_executor(w.ex[h], [&w, h](std::exception_ptr e, bool) { if (e) w.bad("a task failed: " + ep_name(e)); if (!w.on(h)) w.bad("a spawned task completes on another executor than the handler's"); w.touched[h]++; w.roots_done++; }));
      else asio::post(w.ex[o], [&w, o, s = seeds[k]] { det(w, o, asio::executor_arg, w.ex[o], rng{nullptr, s}, 2, true); w.roots_done++; });
    }
    tp.join(); w.on = nullptr; for (auto & x : w.ex) x = cobalt::executor();
  }
  PBT_CHECK(c, w.wrong.empty(), w.wrong);
  PBT_CHECK(c, w.live == 0, w.live << " coroutines never ended"); PBT_CHECK(c, w.roots_done == w.roots, "a completion is missing");
  long long sum = 0; for (auto t : w.touched) sum += t;
  if (w.foreign > 3) c.mark_nontrivial();
  names(w, c);
}
int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C16", {
    {"pool", "two to seven trees of coroutines on four strands of a pool of two to four threads, each strand with a counter that only its coroutines touch; non-trivial: four or more awaits completed by a foreign executor", 12000, 200000, pool, false, 60, 4},
  });
}
#endif
