// C14: cobalt threads, run as real threads.
// The plan of a case is drawn before any of its threads starts; bodies only touch their own record.
#include "gate.hpp"
#include <boost/cobalt/thread.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/wait_group.hpp>
#include <boost/asio/steady_timer.hpp>
#include <thread>
#include <mutex>
using namespace env;
using pbt::Src; using pbt::Ctx;
using namespace std::chrono_literals;

// A memory resource that several threads may use.
struct locked_resource final : cobalt::pmr::memory_resource
{
  std::mutex m; checked_resource inner;
  void * do_allocate(std::size_t n, std::size_t a) override { std::lock_guard l(m); return inner.allocate(n, a); }
  void do_deallocate(void * p, std::size_t n, std::size_t a) override { std::lock_guard l(m); inner.deallocate(p, n, a); }
  bool do_is_equal(const cobalt::pmr::memory_resource & o) const noexcept override { return this == &o; }
};

enum step_kind { post_, timer_, inner_, background_, release_, wait_, n_steps };
enum end_kind { return_, throw_, stop_, n_ends };
enum act_kind { join_, await_rvalue, await_lvalue, destroy_, cancel_join, await_cancel, late_await, group_, n_acts };
enum form_kind { plain_, tuple_, result_ };
static const char * act_name[] = {"join", "await", "await_lvalue", "destroy", "cancel_join", "await_cancel", "late_await", "lost_race"};

struct step_t { int kind, arg; };
struct record
{
  std::vector<step_t> steps; int ends = 0, act = 0, form = 0, delay = 0, spawns = 0; bool waits = false, throwing = false; asio::cancellation_type type{};
  std::atomic<bool> release{false};
  // written by the thread, read once it has ended
  std::atomic<int> alive{0}, started{0}, ended{0}, background{0}; std::atomic<int> steps_done{0};
  std::thread::id tid; std::string wrong; int cancelled = 0; bool was_stopped = false;
  void bad(std::string s) { if (wrong.empty()) wrong = std::move(s); }
};
struct count { std::atomic<int> & n; count(std::atomic<int> & n) : n(n) { n++; } ~count() { n--; } };

static cobalt::promise<int> inner(record & r, int k)
{
  count a{r.alive}; co_await cobalt::this_coro::throw_if_cancelled(false);
  for (int i = 0; i < k; i++) { auto ex = co_await cobalt::this_coro::executor; co_await asio::post(ex, cobalt::use_op); if (std::this_thread::get_id() != r.tid) r.bad("an inner promise changed the thread"); }
  co_return k;
}
static cobalt::promise<void> inner_wait(record & r)
{
  count a{r.alive};
  asio::steady_timer t(co_await cobalt::this_coro::executor, 1h);
  auto [ec] = co_await cobalt::as_tuple(t.async_wait(cobalt::use_op));
  if (ec != asio::error::operation_aborted) r.bad("the inner wait wasn't cancelled");
}
static cobalt::detached background(record & r, int k)
{
  count a{r.alive}; r.background++;
  for (int i = 0; i < k; i++) { auto ex = co_await cobalt::this_coro::executor; co_await asio::post(ex, cobalt::use_op); }
  r.background--;
}

static cobalt::thread body(record & r)
{
  count a{r.alive}; r.started++; r.tid = std::this_thread::get_id();
  if (!r.throwing) co_await cobalt::this_coro::throw_if_cancelled(false);
  auto ex = co_await cobalt::this_coro::executor;
  auto al = co_await cobalt::this_coro::allocator;
  auto res = cobalt::this_thread::get_default_resource();
  if (!cobalt::this_thread::has_executor() || cobalt::this_thread::get_executor() != ex) r.bad("the thread's executor isn't the one of the coroutine");
  if (al.resource() != res) r.bad("the coroutine's allocator isn't the thread's");
  for (auto & s : r.steps)
  {
    switch (s.kind)
    {
      case post_: co_await asio::post(ex, cobalt::use_op); break;
      case timer_: { asio::steady_timer t(ex, std::chrono::microseconds(s.arg * 5)); auto tup = co_await cobalt::as_tuple(t.async_wait(cobalt::use_op)); break; }
      case inner_: { auto k = co_await inner(r, s.arg); if (k != s.arg) r.bad("wrong value of an inner promise"); break; }
      case background_: background(r, s.arg); break;
      case release_: while (!r.release) { asio::steady_timer t(ex, 20us); if (r.throwing) co_await t.async_wait(cobalt::use_op); else { auto tup = co_await cobalt::as_tuple(t.async_wait(cobalt::use_op)); } } break;
      case wait_:
      {
        auto ct = co_await cobalt::this_coro::cancelled;
        if (ct == asio::cancellation_type::none || r.throwing)
        {
          if (s.arg & 1) co_await inner_wait(r);
          else
          {
            asio::steady_timer t(ex, 1h); error_code ec{};
            if (r.throwing) co_await t.async_wait(cobalt::use_op); // throws
            else { auto tup = co_await cobalt::as_tuple(t.async_wait(cobalt::use_op)); ec = std::get<0>(tup); }
            if (ec != asio::error::operation_aborted) r.bad("the thread's wait wasn't cancelled");
          }
          ct = co_await cobalt::this_coro::cancelled;
        }
        r.cancelled = int(ct);
        break;
      }
    }
    r.steps_done++;
    if (std::this_thread::get_id() != r.tid) r.bad("the coroutine changed its thread");
    if (cobalt::this_thread::get_executor() != ex || cobalt::this_thread::get_default_resource() != res) r.bad("the thread's executor or resource changed");
  }
  r.ended++;
  if (r.ends == throw_) throw test_error(42);
  if (r.ends == stop_)
  {
    r.was_stopped = true;
    static_cast<asio::io_context &>(asio::query(ex, asio::execution::context)).stop();
    co_await asio::post(ex, cobalt::use_op);
    r.bad("a stopped context went on");
  }
}

struct scene
{
  Ctx & c; asio::io_context & ctx; std::deque<record> & recs; int done = 0;
  cobalt::task<int> visitor(record & r, int k)
  {
    count a{r.alive};
    auto ex = co_await cobalt::this_coro::executor;
    auto me = std::this_thread::get_id();
    for (int i = 0; i < k; i++) co_await asio::post(ex, cobalt::use_op);
    if (std::this_thread::get_id() != me || (r.started && r.tid != me)) r.bad("a task spawned onto the thread runs elsewhere");
    co_return k;
  }
  // waits for t in the form asked for; returns what was reported
  template<typename T> cobalt::promise<Outcome> wait(T && t, record & r)
  {
    Outcome o = Outcome::val(0);
    try
    {
      if (r.form == plain_) { co_await std::forward<T>(t); }
      else if (r.form == tuple_) { auto tup = co_await cobalt::as_tuple(std::forward<T>(t)); if (auto e = std::get<0>(tup)) o = Outcome::from(e); }
      else { auto res = co_await cobalt::as_result(std::forward<T>(t)); if (res.has_error()) o = Outcome::from(res.error()); }
    }
    catch (...) { o = Outcome::from(std::current_exception()); if (r.form != plain_) c.fail("a non-throwing form of awaiting a thread threw"); }
    co_return o;
  }
  void finished(record & r, const char * how, bool complete)
  {
    PBT_CHECK(c, r.alive == 0, how << ": " << r.alive << " coroutine(s) of the thread still exist");
    PBT_CHECK(c, r.wrong.empty(), r.wrong);
    PBT_CHECK(c, r.started <= 1 && r.ended <= 1);
    if (complete)
    {
      PBT_CHECK(c, r.started == 1, how << " although the coroutine never ran");
      if (!r.throwing) PBT_CHECK(c, r.ended == 1 && r.steps_done == int(r.steps.size()), how << " before the coroutine had ended");
      if (r.ends == return_ && !r.throwing) PBT_CHECK(c, r.background == 0, how << " before everything on the thread was done");
      if (r.waits && !r.throwing) PBT_CHECK(c, r.cancelled == (int(r.type) & 7), "the thread was cancelled with " << int(r.type) << " but sees " << r.cancelled);
    }
  }
  cobalt::task<void> act(record & r)
  {
    auto ex = co_await cobalt::this_coro::executor;
    auto me = std::this_thread::get_id(); auto res = cobalt::this_thread::get_default_resource();
    c.log("thread ", act_name[r.act], " form ", r.form, " ends ", r.ends, " delay ", r.delay, " steps ", r.steps.size(), r.throwing ? " throwing" : "", " cancel ", int(r.type));
    for (auto & s : r.steps) c.log("  step ", s.kind, " ", s.arg);
    auto want = r.throwing && r.waits ? Outcome{Outcome::aborted, 0} : r.ends == throw_ ? Outcome::err(42) : Outcome::val(0);
    {
      std::optional<cobalt::thread> t(body(r));
      PBT_CHECK(c, t->joinable() && t->get_id() != me);
      for (int i = 0; i < r.spawns; i++) // the thread waits for release meanwhile
      {
        auto v = co_await cobalt::spawn(t->get_executor(), visitor(r, i), cobalt::use_op);
        PBT_CHECK(c, v == i, "a task spawned onto a thread returned " << v << " not " << i);
        PBT_CHECK(c, std::this_thread::get_id() == me, "spawn onto a thread resumed elsewhere");
      }
      if (r.act != await_rvalue && r.act != await_lvalue && r.act != await_cancel) r.release = true;
      for (int i = 0; i < r.delay; i++) { asio::steady_timer tim(ex, 10us * i); co_await tim.async_wait(cobalt::use_op); }
      c.label(act_name[r.act]);
      switch (r.act)
      {
        case cancel_join: t->cancel(r.type); [[fallthrough]];
        case join_:
          t->join(); PBT_CHECK(c, !t->joinable());
          if (r.form) t->cancel();
          t.reset(); finished(r, "joined", true); break;
        case await_rvalue: case await_lvalue: case await_cancel:
        {
          auto p = r.act == await_lvalue || (r.act == await_cancel && (r.delay & 1)) ? wait(*t, r) : wait(std::move(*t), r);
          r.release = true;
          if (r.act == await_cancel)
          {
            for (int i = 0; i < r.delay; i++) co_await asio::post(ex, cobalt::use_op);
            p.cancel(r.type);
          }
          auto o = co_await p;
          PBT_CHECK(c, o == want, "awaiting the thread reported " << o << " not " << want);
          t.reset();
          finished(r, "awaited", true);
          break;
        }
        case late_await:
        {
          for (int i = 0; i < 20000; i++)
          {
            try { (void)t->get_executor(); } catch (std::exception &) { break; }
            asio::steady_timer tim(ex, 20us); co_await tim.async_wait(cobalt::use_op);
          }
          Outcome o;
          if (r.delay & 1) { o = co_await wait(*t, r); } else { o = co_await wait(std::move(*t), r); }
          PBT_CHECK(c, o == want, "awaiting the finished thread reported " << o << " not " << want);
          t.reset(); finished(r, "awaited late", true);
          break;
        }
        case group_: // loses a race that is decided before it's awaited
        {
          auto x = co_await cobalt::left_race(inner(r, 0), std::move(*t));
          PBT_CHECK(c, x.index() == 0);
          t.reset(); finished(r, "lost a race", false); break;
        }
        case destroy_:
          if (r.type != asio::cancellation_type::none) t->cancel(r.type);
          t.reset(); finished(r, "destroyed", false); break;
      }
    }
    PBT_CHECK(c, std::this_thread::get_id() == me && cobalt::this_thread::get_executor() == ex && cobalt::this_thread::get_default_resource() == res, "a thread changed the state of the one that started it");
    done++;
  }
};

static void property(Src & src, Ctx & c)
{
  std::deque<record> recs;
  int n = 1 + int(src.below(3)); bool together = src.flip();
  for (int i = 0; i < n; i++)
  {
    auto & r = recs.emplace_back();
    r.act = int(src.below(n_acts)); r.form = int(src.below(3)); r.delay = int(src.below(4));
    bool awaits = r.act == await_rvalue || r.act == await_lvalue || r.act == await_cancel;
    bool cancels = r.act == cancel_join || r.act == await_cancel;
    for (int k = int(src.below(4)); k--;) r.steps.push_back({int(src.weighted({3, 2, 2, 1})), int(src.below(4))});
    if (src.chance(1, 4)) r.spawns = 1 + int(src.below(3));
    bool throws = false;
    if (r.act == destroy_) { r.waits = src.flip(); r.type = src.flip() ? asio::cancellation_type::total : asio::cancellation_type::none; }
    if (r.act == group_) r.waits = src.flip();
    if (cancels)
    {
      r.waits = true; const asio::cancellation_type ts[] = {asio::cancellation_type::total, asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::all};
      r.type = ts[src.below(4)];
      if (r.act == await_cancel && src.chance(1, 3)) r.throwing = throws = true;
    }
    else if (awaits && src.chance(1, 2)) { r.ends = throw_; throws = true; }
    if (!r.ends && src.chance(1, 6)) r.ends = stop_;
    if (r.throwing) { r.ends = return_; r.steps.clear(); }
    if (throws || r.spawns) r.steps.push_back({release_, 0});
    if (r.waits) r.steps.push_back({wait_, r.throwing ? 0 : int(src.below(2))});
  }
  int before = c.failed;
  locked_resource res;
  {
    asio::io_context ctx{1};
    auto prev = cobalt::this_thread::set_default_resource(&res);
    cobalt::this_thread::set_executor(ctx.get_executor());
    scene s{c, ctx, recs};
    if (together) for (auto & r : recs) cobalt::spawn(ctx, s.act(r), asio::bind_executor(ctx.get_executor(), [&c](std::exception_ptr e) { PBT_CHECK(c, !e, ep_name(e)); }));
    else cobalt::spawn(ctx, [](scene & s) -> cobalt::task<void> { for (auto & r : s.recs) co_await s.act(r); }(s), asio::bind_executor(ctx.get_executor(), [&c](std::exception_ptr e) { PBT_CHECK(c, !e, ep_name(e)); }));
    ctx.run();
    PBT_CHECK(c, s.done == n, "only " << s.done << " of " << n << " threads came to an end");
    cobalt::this_thread::set_default_resource(prev);
  }
  (void)before;
  PBT_CHECK(c, res.inner.bad == 0 && res.inner.live.empty(), res.inner.live.size() << " blocks left " << res.inner.what);
  if (n > 1 || recs[0].steps.size() > 1) c.mark_nontrivial();
}

#if defined(__SANITIZE_THREAD__)
constexpr int quick = 8000;
#else
constexpr int quick = 24000;
#endif
int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C14", {
    {"thread", "1-3 cobalt threads with generated bodies (posts, timers, inner promises, background coroutines, tasks spawned onto them, waiting for a cancellation) ending by return, exception or stop; joined, awaited (three forms, l- and rvalue, "
               "before and after the end), cancelled through the thread or the awaiter, destroyed running or after losing a race; non-trivial: more than one thread or step", quick, 1000000, property, true, 20},
  });
}
