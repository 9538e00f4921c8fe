// C14: spawn, run and threads.
#include "gate.hpp"
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/run.hpp>
#include <boost/cobalt/thread.hpp>
#include <boost/cobalt/noop.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/asio/use_future.hpp>
#include <boost/asio/detached.hpp>
#include <boost/asio/strand.hpp>
#include <boost/asio/deferred.hpp>
#include <boost/asio/steady_timer.hpp>
#include <future>
#include <algorithm>
#include <thread>
#include <mutex>
using namespace env;
using pbt::Src; using pbt::Ctx;

// ---------------------------------------------------------------- spawn
namespace sp
{
struct world;
struct job
{
  int id = 0, steps = 0, ends = 0; // ends: 0 value, 1 exception
  bool noop = false, interrupted = false;
  asio::cancellation_signal sig;
  int started = 0, alive = 0, calls = 0, dropped = 0, handlers = 0; bool finished = false, in_spawn = false, cancelled_early = false, mute = false;
  Outcome out; // of the body
  int seen = 0, where = 0; bool fuzzy = false; // what this_coro::cancelled should say
  Gate * at = nullptr;
  std::optional<cobalt::promise<void>> p; bool cancellable() { return (p && !calls && awaiting) || sig.slot().has_handler(); }
  void cancel(asio::cancellation_type t) { if (p) p->cancel(t); else sig.emit(t); }
  bool awaiting = false; std::shared_ptr<void> any; // futures etc.
  std::function<bool()> poll; // the future has a result
};
struct world
{
  Src & src; Ctx & c; Env & e;
  checked_resource special; // of handlers; outlives the contexts
  std::optional<asio::io_context> other; asio::io_context third{1};
  std::deque<job> jobs; std::deque<Gate> gates; int ready = 0;
  world(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) { other.emplace(1); }
  cobalt::executor exec(int w) { return w == 0 ? cobalt::executor(e.ctx.get_executor()) : w == 1 ? cobalt::executor(other->get_executor()) : cobalt::executor(third.get_executor()); }
  bool inside(int w) { return w == 0 ? e.ctx.get_executor().running_in_this_thread() : w == 1 ? other && other->get_executor().running_in_this_thread() : third.get_executor().running_in_this_thread(); }
  Gate & gate()
  {
    auto & g = gates.emplace_back(e, int(gates.size())); g.imm_val = 10 + g.id; g.reaction = static_cast<on_cancel>(src.below(3));
    switch (ready ? 1 : src.weighted({6, 1, 1})) { case 1: g.immediate_ready = true; break; case 2: g.immediate_init = true; break; }
    return g;
  }
};
template<typename T> struct handler // records what it's called with
{
  world * w; job * j; int where; cobalt::pmr::memory_resource * res; asio::cancellation_slot slot; bool orig = true;
  using executor_type = cobalt::executor; executor_type ex;
  executor_type get_executor() const noexcept { return ex; }
  using allocator_type = cobalt::pmr::polymorphic_allocator<void>; allocator_type get_allocator() const noexcept { return allocator_type(res); }
  using cancellation_slot_type = asio::cancellation_slot; cancellation_slot_type get_cancellation_slot() const noexcept { return slot; }
  handler(world * w, job * j, int where, cobalt::pmr::memory_resource * r, asio::cancellation_slot s, cobalt::executor ex) : w(w), j(j), where(where), res(r), slot(s), ex(ex) { j->handlers++; }
  handler(handler && o) noexcept : w(o.w), j(o.j), where(o.where), res(o.res), slot(o.slot), orig(std::exchange(o.orig, false)), ex(o.ex) {}
  ~handler() { if (orig) j->handlers--; }
  void call(Outcome o)
  {
    auto & c = w->c; j->calls++;
    c.log("handler of ", j->id, ": ", o);
    PBT_CHECK(c, j->calls == 1, "the handler of spawn " << j->id << " was called again");
    PBT_CHECK(c, !j->in_spawn, "the handler of spawn " << j->id << " was called from within spawn()");
    PBT_CHECK(c, w->inside(where), "the handler of spawn " << j->id << " was called outside its executor");
    PBT_CHECK(c, (j->finished && j->alive == 0) || j->noop, "the handler of spawn " << j->id << " was called before the task ended");
    PBT_CHECK(c, o == j->out, "spawn " << j->id << " reported " << o << " not " << j->out);
  }
};
struct handler_void : handler<void> { using handler<void>::handler; void operator()(std::exception_ptr e) { call(e ? Outcome::from(e) : Outcome::val(0)); } };
template<typename T> struct handler_val : handler<T>
{
  using handler<T>::handler;
  void operator()(std::exception_ptr e, T t) { if (e) { PBT_CHECK(this->w->c, id_of(t) == id_of(T{}), "an exception and a value"); } this->call(e ? Outcome::from(e) : Outcome::val(id_of(t))); }
};
template<typename T> using handler_for = std::conditional_t<std::is_void_v<T>, handler_void, handler_val<T>>;

struct guard { job & j; bool on = true; guard(job & j) : j(j) { j.alive++; j.started++; } ~guard() { j.alive--; if (j.at) j.at = nullptr; } };

template<typename T> cobalt::task<T> body(world & w, job & j, int where, bool direct)
{
  guard g{j};
  PBT_CHECK(w.c, w.inside(where), "task " << j.id << " started outside its executor");
  bool threw = false; Outcome caught;
  try
  {
    if (direct)
    {
      auto ex = co_await cobalt::this_coro::executor;
      PBT_CHECK(w.c, ex == w.exec(where), "task " << j.id << " has another executor");
      auto ct = co_await cobalt::this_coro::cancelled;
      PBT_CHECK(w.c, j.fuzzy || int(ct) == j.seen, "task " << j.id << " sees cancellation " << int(ct) << " not " << j.seen << " when it starts");
    }
    co_await cobalt::this_coro::throw_if_cancelled(false);
    for (int i = 0; i < j.steps; i++)
      switch (w.src.weighted({5, 2, 1}))
      {
        case 0:
        {
          auto & gt = w.gate(); j.at = &gt;
          auto t = co_await cobalt::as_tuple(gt);
          j.at = nullptr;
          PBT_CHECK(w.c, w.inside(where), "task " << j.id << " resumed outside its executor");
          break;
        }
        case 1: { auto px = co_await cobalt::this_coro::executor; co_await asio::post(px, cobalt::use_op); PBT_CHECK(w.c, w.inside(where), "task " << j.id << " resumed outside its executor after a post"); break; }
        case 2: { auto ct = co_await cobalt::this_coro::cancelled; PBT_CHECK(w.c, j.fuzzy || int(ct) == j.seen, "task " << j.id << " sees cancellation " << int(ct) << " not " << j.seen); break; }
      }
    j.finished = true;
    if (j.ends == 1) { j.out = Outcome::err(j.id); throw test_error(j.id); }
    j.out = Outcome::val(std::is_void_v<T> ? 0 : 100 + j.id);
  }
  catch (test_error &) { threw = true; }
  if (threw) throw test_error(j.id);
  if constexpr (!std::is_void_v<T>) co_return T(100 + j.id);
}
template<typename T> cobalt::task<T> nothing(int id) { if constexpr (std::is_void_v<T>) return cobalt::noop(); else return cobalt::noop<T>(T(100 + id)); }

template<typename T> cobalt::promise<void> by_op(world & w, job & j, cobalt::executor ex, cobalt::task<T> t)
{
  struct h { job & j; h(job & j) : j(j) { j.handlers++; j.awaiting = true; } ~h() { j.handlers--; j.awaiting = false; } } hd{j};
  co_await cobalt::this_coro::throw_if_cancelled(false);
  Outcome o;
  j.in_spawn = true;
  try
  {
    if constexpr (std::is_void_v<T>) { co_await cobalt::spawn(ex, std::move(t), cobalt::use_op); o = Outcome::val(0); }
    else { T v = co_await cobalt::spawn(ex, std::move(t), cobalt::use_op); o = Outcome::val(id_of(v)); }
  }
  catch (...) { o = Outcome::from(std::current_exception()); }
  auto & c = w.c; j.calls++;
  c.log("awaiter of ", j.id, ": ", o);
  PBT_CHECK(c, w.inside(0), "the awaiter of spawn " << j.id << " resumed outside its executor");
  PBT_CHECK(c, (j.finished && j.alive == 0) || j.noop, "spawn " << j.id << " completed before the task ended");
  PBT_CHECK(c, o == j.out, "awaiting spawn " << j.id << " yields " << o << " not " << j.out);
}

// starts a task in a race it cannot win, so that it's spawned while it's running
template<typename T> cobalt::detached start(world & w, job & j, cobalt::task<T> & t, Gate & g)
{
  auto r = co_await cobalt::as_tuple(cobalt::left_race(t, g)); (void)r;
}

template<typename T> void one(world & w)
{
  auto & src = w.src; auto & c = w.c;
  auto & j = w.jobs.emplace_back(); j.id = int(w.jobs.size()); j.steps = int(src.below(4)); j.ends = src.chance(1, 3);
  int where = w.other ? int(src.below(3)) : 2 * int(src.below(2));
  auto ex = w.exec(where); j.where = where;
  bool inside = where < 2 && src.chance(1, 3);
  int tok = int(src.weighted({6, 2, 1, 2}));
  j.noop = src.chance(1, 8);
  bool slot = src.flip(), special = src.flip(); int hw = where == 1 ? int(src.below(3)) : 2 * int(src.below(2)); // nothing outlives the executor of its handler
  c.log("spawn ", j.id, ": ", j.noop ? "noop" : "task", " on ", where, inside ? " from inside" : "", ", token ", tok, ", handler on ", hw, slot ? ", slot" : "", special ? ", allocator" : "");
  if (j.noop) { c.label("noop"); j.out = Outcome::val(std::is_void_v<T> ? 0 : 100 + j.id); }
  auto go = [&w, &j, where, ex, tok, slot, special, hw]
  {
    cobalt::task<T> t = j.noop ? nothing<T>(j.id) : body<T>(w, j, where, true);
    if (where == 0 && !j.noop && w.inside(0) && w.src.chance(1, 3))
    {
      auto & g = w.gate(); g.immediate_ready = g.immediate_init = false;
      start<T>(w, j, t, g);
      if (j.alive == 0) { j.mute = true; if (g.waiting()) g.complete({}, 0); return; } // won the race
      g.complete({}, 0); w.c.label("running already");
    }
    j.in_spawn = true;
    auto before = w.special.allocs;
    switch (tok)
    {
      case 0:
      {
        handler_for<T> h{&w, &j, hw, special ? &w.special : (cobalt::pmr::memory_resource*)&w.e.res, slot ? j.sig.slot() : asio::cancellation_slot(), w.exec(hw)};
        if (where == 1) { if (w.other) cobalt::spawn(*w.other, std::move(t), std::move(h)); } else cobalt::spawn(ex, std::move(t), std::move(h));
        if (special && !j.noop) PBT_CHECK(w.c, w.special.allocs > before, "spawn didn't use the allocator of its handler");
        break;
      }
      case 1:
      {
        auto f = std::make_shared<std::future<T>>(cobalt::spawn(ex, std::move(t), asio::bind_executor(w.exec(hw), asio::use_future))); // on its own it uses the system executor j.any = f; w.c.label("future");
        j.poll = [f, &w, &j]
        {
          if (f->wait_for(std::chrono::seconds(0)) != std::future_status::ready) return false;
          Outcome o; bool abandoned = false;
          try { if constexpr (std::is_void_v<T>) { f->get(); o = Outcome::val(0); } else { T v = f->get(); o = Outcome::val(id_of(v)); } }
          catch (std::future_error &) { abandoned = true; } catch (...) { o = Outcome::from(std::current_exception()); }
          if (!abandoned) { j.calls++; PBT_CHECK(w.c, o == j.out, "the future of spawn " << j.id << " holds " << o << " not " << j.out); }
          return true;
        };
        break;
      }
      case 2: cobalt::spawn(ex, std::move(t), asio::detached); j.mute = true; break;
      case 3: j.p.emplace(by_op<T>(w, j, ex, std::move(t))); w.c.label("awaited"); break;
    }
    j.in_spawn = false;
  };
  if (inside) { asio::post(ex, go); c.label("inside"); } else go();
}

void property(Src & src, Ctx & c)
{
  Env e;
  {
    world w(src, c, e); int n = 2 + int(src.below(14)), cancels = 0, spawned = 0; bool destroyed = false, dropped = false;
    auto waiting = [&]() -> Gate * { std::vector<Gate *> v; for (auto & g : w.gates) if (g.waiting()) v.push_back(&g); return v.empty() ? nullptr : v[src.below(unsigned(v.size()))]; };
    auto step = [&](int which, int k)
    {
      if (which == 1 && !w.other) return std::size_t(0);
      auto & ctx = which == 0 ? e.ctx : which == 1 ? *w.other : w.third; ctx.restart(); std::size_t r = 0; while (int(r) < k && ctx.poll_one()) r++; return r;
    };
    for (int i = 0; i < n && !c.failed; i++)
      switch (src.weighted({spawned < 4 ? 5u : 0u, 5, 6, 4, 1, 1}))
      {
        case 0: spawned++; switch (src.below(4)) { case 0: one<void>(w); break; case 1: one<int>(w); break; case 2: one<val>(w); break; case 3: one<mo>(w); break; } break;
        case 1: if (auto g = waiting()) { c.log("complete ", g->id); g->complete({}, 1, true); } break;
        case 2: step(int(src.below(3)), 1 + int(src.below(3))); break;
        case 3:
        {
          if (w.jobs.empty()) break;
          auto & j = w.jobs[src.below(unsigned(w.jobs.size()))]; auto t = static_cast<asio::cancellation_type>(1 << src.below(3));
          if (!j.cancellable() || (j.where == 1 && !w.other)) break;
          cancels++; c.label("cancelled");
          if (!j.started) c.label("cancelled before the start");
          if (src.chance(1, 3))
          { // the request is delivered on the executor of the task
            c.log("cancel ", j.id, " ", int(t), " from outside"); c.label("from outside"); j.fuzzy = true;
            auto g = j.at; bool was = g && g->waiting() && g->reaction == on_cancel::ignore; auto n0 = g ? g->cancels.size() : 0;
            j.cancel(t);
            if (was) PBT_CHECK(c, g->cancels.size() == n0, "cancelling spawn " << j.id << " from outside went to the operation directly");
            if (was) { for (int k = 0; k < 300; k++) if (!step(0, 1) + !step(1, 1) + !step(2, 1) == 3) break; }
            if (was && g->waiting()) PBT_CHECK(c, std::count(g->cancels.begin() + long(n0), g->cancels.end(), t) >= 1, "cancelling spawn " << j.id << " from outside didn't reach the operation it awaits");
          }
          else
          {
            if (j.where == 1 && !w.other) break;
            asio::post(w.exec(j.where), [&w, &c, &j, t]
            {
              if (!j.cancellable()) return;
              auto g = j.at; bool was = g && g->waiting(); auto n0 = g ? g->cancels.size() : 0;
              c.log("cancel ", j.id, " ", int(t));
              if (!j.finished) j.seen = int(t);
              j.cancel(t);
              if (was) PBT_CHECK(c, g->cancels.size() == n0 + 1 && g->cancels.back() == t, "cancelling spawn " << j.id << " didn't reach the operation it awaits");
            });
          }
          break;
        }
        case 4: if (auto g = waiting(); g) { c.log("drop ", g->id); dropped = true; c.label("dropped"); g->drop(); } break;
        case 5: if (w.other && src.chance(1, 3)) { c.log("destroy the second context"); c.label("context destroyed");
            // whatever was pending on it has to be gone before
            for (std::size_t k = 0; k < w.gates.size(); k++) if (auto & g = w.gates[k]; g.waiting() && &asio::query(g.h->get_executor(), asio::execution::context) == &*w.other) g.drop();
            destroyed = true; w.other.reset(); } break;
      }
    w.ready = 1;
    for (int guard = 0; guard < 400; guard++)
    {
      auto k = step(0, 100) + step(1, 100) + step(2, 100);
      if (auto g = waiting()) { g->complete({}, 1, true); continue; }
      if (!k) break;
    }
    w.other.reset();
    for (auto & j : w.jobs)
    {
      if (j.poll) { bool r = j.poll(); PBT_CHECK(c, r, "the future of spawn " << j.id << " never became ready"); j.poll = nullptr; j.any.reset(); }
      PBT_CHECK(c, j.alive == 0, "task " << j.id << " never ended");
      PBT_CHECK(c, j.handlers == 0, "the handler of spawn " << j.id << " was never destroyed");
      if (!j.mute && !destroyed && !dropped) PBT_CHECK(c, j.calls == 1, "spawn " << j.id << " completed " << j.calls << " times");
      if (!destroyed && !dropped && !j.noop) PBT_CHECK(c, j.started == 1 && j.finished, "task " << j.id << " started " << j.started << " times");
      if (j.calls) PBT_CHECK(c, !j.sig.slot().has_handler(), "the cancellation slot of spawn " << j.id << " still has a handler");
    }
    if (spawned >= 1 && (cancels || dropped || destroyed || spawned > 1)) c.mark_nontrivial();
    w.jobs.clear();
    PBT_CHECK(c, w.special.bad == 0 && w.special.live.empty(), "the handler's allocator: " << w.special.what << " " << w.special.live.size() << " blocks left");
  }
  e.check_memory(c);
  PBT_CHECK(c, Live::n == 0, "payloads alive: " << Live::n);
  Live::n = 0;
}
}

int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C14", {
    {"spawn", "1-4 spawned tasks (void, int, copyable, move-only results; noop tasks) on three contexts, from in- and outside, with handlers that have executors, allocators and slots of their own, futures, detached and awaited; completed, cancelled, abandoned and their context destroyed at random points; non-trivial: several tasks, or cancelled, abandoned or destroyed", 200000, 8000000, sp::property},
  });
}
