// C15: where coroutines and their internals allocate, and what happens if an allocation fails.
#include "gate.hpp"
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/wait_group.hpp>
#include <boost/asio/bind_allocator.hpp>
#include <random>
using namespace env;
using pbt::Src; using pbt::Ctx;
using alloc_t = cobalt::pmr::polymorphic_allocator<void>;

struct world
{
  Src & src; Ctx & c; Env & e; std::deque<checked_resource> own; std::deque<Gate> gates; int alive = 0, depth = 0, budget = 24, bad_allocs = 0, kinds = 0; bool dead = false, orphan = false, inject = false;
  world(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) { own.resize(2); }
  Gate & gate()
  {
    auto & g = gates.emplace_back(e, int(gates.size())); g.reaction = static_cast<on_cancel>(src.below(3)); g.imm_val = g.id;
    switch (orphan ? 1 : src.weighted({6, 1, 1})) { case 1: g.immediate_ready = true; break; case 2: g.immediate_init = true; break; }
    g.on_initiate = [this, &g] { };
    return g;
  }
  cobalt::pmr::memory_resource * pick() { auto i = src.below(3); return i ? &own[i - 1] : static_cast<cobalt::pmr::memory_resource *>(&e.res); }
  std::size_t allocs() const { std::size_t n = e.res.allocs; for (auto & r : own) n += r.allocs; return n; }
};
struct count { world & w; count(world & w) : w(w) { w.alive++; } ~count() { w.alive--; } };

cobalt::promise<int> p_arg(std::allocator_arg_t, alloc_t a, world & w, int k);
cobalt::promise<int> p(world & w, int k);
cobalt::task<int> t_arg(std::allocator_arg_t, alloc_t a, world & w, int k);
cobalt::task<int> t(world & w, int k);
cobalt::generator<int> g_arg(std::allocator_arg_t, alloc_t a, world & w, int k);
cobalt::generator<int> g(world & w, int k);
cobalt::detached d_arg(std::allocator_arg_t, alloc_t a, world & w, int k);
cobalt::detached d(world & w, int k);

// calls f() and checks which resource the frame it makes came from; f returns the coroutine
struct made_from
{
  world & w; checked_resource * want; std::size_t before, others;
  made_from(world & w, cobalt::pmr::memory_resource * r) : w(w), want(static_cast<checked_resource *>(r)), before(want->allocs), others(w.allocs()) {}
  void made(const char * what) { PBT_CHECK(w.c, want->allocs == before + 1 && w.allocs() == others + 1, "creating a " << what << " took " << want->allocs - before << " blocks of its resource and " << w.allocs() - others - (want->allocs - before) << " of others"); }
};

// the statements common to all bodies; F is the coroutine's own expected resource
#define STATEMENTS(PROMISE)                                                                                                     \
  count a_{w};                                                                                                                  \
  {                                                                                                                             \
    auto al = co_await cobalt::this_coro::allocator;                                                                            \
    PBT_CHECK(w.c, al.resource() == res, "a coroutine has another allocator than the one it was given");                       \
  }                                                                                                                             \
  co_await cobalt::this_coro::throw_if_cancelled(false);                                                                        \
  int steps = w.depth > 3 ? 0 : int(w.src.below(4));                                                                            \
  for (int i = 0; i < steps && !w.c.failed && !w.dead; i++)                                                                     \
  {                                                                                                                             \
    auto kind = w.src.weighted({5, 3, 3, 2, 2, 2, 2, 2, 2, 1, 2, 1});                                                           \
    if (w.budget-- <= 0) kind = 0;                                                                                              \
    if (w.inject && (kind == 10 || kind == 9 || (kind > 4 && kind < 8))) kind = 0; /* see KNOWN_FINDINGS */                     \
    w.c.log("step ", kind, " at depth ", w.depth);                                                                              \
    try                                                                                                                         \
    {                                                                                                                           \
      switch (kind)                                                                                                             \
      {                                                                                                                         \
        case 0: { auto & gt = w.gate(); auto r = co_await cobalt::as_tuple(gt); break; }                                        \
        case 1: { auto c_ = make_p(w); int v = co_await c_; PBT_CHECK(w.c, v == 7); break; }                                    \
        case 2: { auto c_ = make_t(w); int v = co_await std::move(c_); PBT_CHECK(w.c, v == 7); break; }                         \
        case 3: { auto c_ = make_g(w); while (c_) { int v = co_await c_; if (v == 7) break; } break; }                          \
        case 4: { make_d(w); break; }                                                                                           \
        case 5: { auto & g1 = w.gate(); auto & g2 = w.gate(); auto v = co_await cobalt::left_race(g1, g2); break; }             \
        case 6: { auto c1 = make_p(w); auto c2 = make_t(w); auto v = co_await cobalt::gather(c1, c2); break; }                  \
        case 7: { auto c1 = make_p(w); auto c2 = make_t(w); auto v = co_await cobalt::join(c1, c2); break; }                    \
        case 8: { auto ex = co_await cobalt::this_coro::executor; auto c_ = make_t(w); auto al = alloc_t(w.pick());             \
                  int v = co_await cobalt::spawn(ex, std::move(c_), asio::bind_allocator(al, cobalt::use_op)); PBT_CHECK(w.c, v == 7); break; } \
        case 9: { std::vector<cobalt::promise<int>> v; for (int k = int(w.src.below(4)); k--;) v.push_back(make_p(w)); auto r = co_await cobalt::gather(v); break; } \
        case 10: { auto & gt = w.gate(); auto c1 = make_p(w); std::mt19937 rng(1); auto v = co_await cobalt::race(rng, gt, c1); break; } \
        case 11: { auto ex = co_await cobalt::this_coro::executor; cobalt::channel<int> ch(1u + w.src.below(3), ex, w.pick()); co_await ch.write(3); int v = co_await ch.read(); PBT_CHECK(w.c, v == 3); break; } \
      }                                                                                                                         \
    }                                                                                                                           \
    catch (std::bad_alloc &) { w.bad_allocs++; w.c.log("bad_alloc"); }                                                          \
    catch (boost::system::system_error &) { }                                                                                   \
  }

static cobalt::promise<int> make_p(world & w)
{
  int k = int(w.src.below(2)); auto r = w.pick(); std::size_t a = w.own[0].allocs; (void)a; w.depth++;
  struct up { world & w; ~up() { w.depth--; } } u{w};
  return r == &w.e.res ? p(w, k) : p_arg(std::allocator_arg, alloc_t(r), w, k);
}
static cobalt::task<int> make_t(world & w)
{
  auto r = w.pick(); made_from m(w, r);
  auto c = r == &w.e.res ? t(w, 0) : t_arg(std::allocator_arg, alloc_t(r), w, 0);
  m.made("task"); return c;
}
static cobalt::generator<int> make_g(world & w)
{
  auto r = w.pick(); int k = int(w.src.below(3));
  w.depth++; struct up { world & w; ~up() { w.depth--; } } u{w};
  return r == &w.e.res ? g(w, k) : g_arg(std::allocator_arg, alloc_t(r), w, k);
}
static void make_d(world & w)
{
  auto r = w.pick(); w.depth++; struct up { world & w; ~up() { w.depth--; } } u{w};
  if (r == &w.e.res) d(w, 0); else d_arg(std::allocator_arg, alloc_t(r), w, 0);
}
#define NO_RES auto res = static_cast<cobalt::pmr::memory_resource *>(&w.e.res);
#define ARG_RES auto res = a.resource();
struct deeper { world & w; deeper(world & w) : w(w) { w.depth++; } ~deeper() { w.depth--; } };

cobalt::promise<int> p_arg(std::allocator_arg_t, alloc_t a, world & w, int k) { ARG_RES STATEMENTS() co_return 7; }
cobalt::promise<int> p(world & w, int k) { NO_RES STATEMENTS() co_return 7; }
cobalt::task<int> t_arg(std::allocator_arg_t, alloc_t a, world & w, int k) { ARG_RES STATEMENTS() co_return 7; }
// a task may be spawned onto another thread, so it uses the global resource unless given one
cobalt::task<int> t(world & w, int k) { auto res = cobalt::pmr::get_default_resource(); STATEMENTS() co_return 7; }
cobalt::generator<int> g_arg(std::allocator_arg_t, alloc_t a, world & w, int k) { ARG_RES STATEMENTS() for (int i = 0; i < k; i++) co_yield i; co_return 7; }
cobalt::generator<int> g(world & w, int k) { NO_RES STATEMENTS() for (int i = 0; i < k; i++) co_yield i; co_return 7; }
cobalt::detached d_arg(std::allocator_arg_t, alloc_t a, world & w, int k) { ARG_RES STATEMENTS() }
cobalt::detached d(world & w, int k) { NO_RES STATEMENTS() }

static void property(Src & src, Ctx & c, bool inject)
{
  auto live0 = Live::n;
  {
    Env e;
    {
      world w(src, c, e); w.inject = inject;
      checked_resource * failing = inject ? static_cast<checked_resource *>(w.pick()) : &e.res;
      if (inject) failing->fail_at = src.below(12);
      std::optional<cobalt::promise<int>> root;
      auto guarded = [&](auto && f) { try { f(); } catch (std::bad_alloc &) { w.bad_allocs++; c.log("bad_alloc from outside"); } };
      w.depth = 0;
      guarded([&] { root.emplace(make_p(w)); });
      for (int k = int(src.below(20)); k-- && !c.failed;)
        switch (src.weighted({6, 3, 1}))
        {
          case 0: { std::vector<Gate *> p; for (auto & g : w.gates) if (g.waiting()) p.push_back(&g); if (p.empty()) break; auto g = p[src.below(p.size())]; int v = g->id; c.log("complete ", v); guarded([&] { g->complete({}, v, src.flip()); }); break; }
          case 1: guarded([&] { e.step(1 + src.below(3)); }); break;
          case 2: if (root) guarded([&] { root->cancel(); }); break;
        }
      int injected = failing->fail_at < 0 && inject; failing->fail_at = -1;
      bool drop = src.flip(); w.orphan = true;
      if (drop)
      {
        w.dead = true; if (root) +std::move(*root); root.reset();
        for (int i = 0; i < 1000; i++) { guarded([&] { e.settle(); });
          std::vector<cobalt::completion_handler<error_code, int>> hs; // all at once, as an execution context would
          for (auto & g : w.gates) if (g.waiting()) { if (g.slot.is_connected()) g.slot.clear(); hs.push_back(std::move(*g.h)); g.h.reset(); }
          if (hs.empty()) break;
        }
      }
      else for (int i = 0; i < 1000; i++) { bool any = false; for (std::size_t k = 0; k < w.gates.size(); k++) if (w.gates[k].waiting()) { any = true; w.gates[k].complete({}, 1); } guarded([&] { e.settle(); }); if (!any) break; }
      if (root && root->ready()) { try { int v = root->get(); PBT_CHECK(c, v == 7); } catch (std::bad_alloc &) {} }
      root.reset(); guarded([&] { e.settle(); });
      PBT_CHECK(c, w.alive == 0, w.alive << " bodies still exist");
      for (auto & r : w.own) PBT_CHECK(c, r.bad == 0 && r.live.empty(), "a given resource still has " << r.live.size() << " blocks " << r.what);
      PBT_CHECK(c, injected || !w.bad_allocs);
      if (w.bad_allocs) c.label("bad_alloc");
      if (drop) c.label("dropped");
      if (inject ? injected != 0 : w.own[0].allocs + w.own[1].allocs > 2) c.mark_nontrivial();
    }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0); Live::n = live0;
}
int main(int argc, char ** argv)
{
  const char * d = "trees of promises, tasks, generators, detached and spawned coroutines, races, gathers, joins and channels, each with the thread's or one of two other resources, completed in generated order and ended or abandoned";
  static std::string a = std::string(d) + "; non-trivial: three or more blocks of other resources", b = std::string(d) + "; one allocation from one of the resources fails (never while a race, gather or join is started); non-trivial: it did";
  return pbt::run_main(argc, argv, "C15", {
    {"tree", a, 400000, 5000000, [](Src & s, Ctx & c) { property(s, c, false); }},
    {"failing", b, 800000, 5000000, [](Src & s, Ctx & c) { property(s, c, true); }},
  });
}
