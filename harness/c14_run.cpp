// C14: run and main, executed in this process.
#include "gate.hpp"
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/run.hpp>
#include <boost/asio/steady_timer.hpp>
#include <csignal>
#define main cobalt_entry // the function co_main defines, and the class
#include "../src/main.cpp"
#undef main
using namespace env;
using pbt::Src; using pbt::Ctx;

// ---------------------------------------------------------------- run
namespace rn
{
struct here // what this thread is set to
{
  std::optional<cobalt::executor> ex; cobalt::pmr::memory_resource * res;
  here() : res(cobalt::this_thread::get_default_resource()) { if (cobalt::this_thread::has_executor()) ex = cobalt::this_thread::get_executor(); }
  bool operator==(const here & o) const { return res == o.res && ex.has_value() == o.ex.has_value() && (!ex || *ex == *o.ex); }
};
struct world { Src & src; Ctx & c; int n = 0, running = 0, depth = 0, failed = 0, background = 0; };
struct fatal : std::exception {};

template<typename T> void start(world & w);
struct count { int & n; count(int & n) : n(n) { n++; } ~count() { n--; } };
cobalt::promise<int> child(world & w, int id, int k) { count a{w.running}; for (int i = 0; i < k; i++) { auto ex = co_await cobalt::this_coro::executor; co_await asio::post(ex, cobalt::use_op); } co_return id; }
cobalt::detached background(world & w, int k) { count a{w.running}; w.background++; for (int i = 0; i < k; i++) { auto ex = co_await cobalt::this_coro::executor; co_await asio::post(ex, cobalt::use_op); } w.background--; }
void any(world & w);

template<typename T> cobalt::task<T> body(world & w, int id, int steps, int ends)
{
  count a{w.running};
  auto ex = co_await cobalt::this_coro::executor;
  PBT_CHECK(w.c, ex == cobalt::this_thread::get_executor(), "the task runs on another executor than the thread has");
  auto res = cobalt::this_thread::get_default_resource();
  auto alloc = co_await cobalt::this_coro::allocator; (void)alloc;
  for (int i = 0; i < steps; i++)
  {
    switch (w.src.weighted({3, 2, 2, w.depth < 3 ? 3u : 0u, 1}))
    {
      case 0: co_await asio::post(ex, cobalt::use_op); break;
      case 1: { int k = int(w.src.below(4)); int r = co_await child(w, 7, k); PBT_CHECK(w.c, r == 7); break; }
      case 2: { asio::steady_timer t(ex, std::chrono::microseconds(w.src.below(30))); co_await t.async_wait(cobalt::use_op); break; }
      case 3: { w.depth++; w.c.label("nested"); any(w); w.depth--; break; }
      case 4: background(w, int(w.src.below(5))); w.c.label("background"); break;
    }
    PBT_CHECK(w.c, ex == cobalt::this_thread::get_executor() && res == cobalt::this_thread::get_default_resource(), "the task's thread has another executor or resource after step " << i);
  }
  if (ends == 1) throw test_error(id);
  if (ends == 2) { asio::post(ex, [] { throw fatal(); }); asio::steady_timer t(ex, std::chrono::hours(1)); co_await t.async_wait(cobalt::use_op); }
  if constexpr (!std::is_void_v<T>) co_return T(id);
}
template<typename T> void start(world & w)
{
  int id = ++w.n, steps = int(w.src.below(5)), ends = int(w.src.weighted({5, 2, 1})), alive = w.running, bg = w.background;
  here before; Outcome o; bool was_fatal = false;
  w.c.log("run ", id, " depth ", w.depth, " steps ", steps, " ends ", ends);
  try { if constexpr (std::is_void_v<T>) { cobalt::run(body<T>(w, id, steps, ends)); o = Outcome::val(0); } else { T t = cobalt::run(body<T>(w, id, steps, ends)); o = Outcome::val(id_of(t)); } }
  catch (fatal &) { was_fatal = true; }
  catch (...) { o = Outcome::from(std::current_exception()); }
  auto want = ends == 1 ? Outcome::err(id) : Outcome::val(std::is_void_v<T> ? 0 : id);
  if (ends == 2) { w.c.label("handler threw"); PBT_CHECK(w.c, was_fatal, "an exception thrown by a handler didn't leave run"); w.background = bg; }
  else PBT_CHECK(w.c, o == want, "run " << id << " returned " << o << " not " << want);
  PBT_CHECK(w.c, before == here(), "run changed the executor or resource of the thread");
  PBT_CHECK(w.c, w.running == alive, "something still exists after run");
  PBT_CHECK(w.c, w.background == bg, "run returned before everything was done");
}
void any(world & w) { switch (w.src.below(4)) { case 0: start<void>(w); break; case 1: start<int>(w); break; case 2: start<val>(w); break; case 3: start<mo>(w); break; } }

void property(Src & src, Ctx & c)
{
  world w{src, c};
  checked_resource res; here before;
  {
    bool own = src.flip(), ctx = src.flip();
    std::optional<asio::io_context> ioc; auto prev = cobalt::this_thread::get_default_resource();
    if (ctx) { ioc.emplace(1); cobalt::this_thread::set_executor(ioc->get_executor()); }
    if (own) cobalt::this_thread::set_default_resource(&res);
    for (int k = 1 + int(src.below(3)); k--;) any(w);
    if (own) cobalt::this_thread::set_default_resource(prev);
  }
  PBT_CHECK(c, here() == before);
  PBT_CHECK(c, res.bad == 0 && res.live.empty(), "run left " << res.live.size() << " blocks of the resource it found " << res.what);
  PBT_CHECK(c, Live::n == 0, "payloads alive: " << Live::n); Live::n = 0;
  if (w.n > 1) c.mark_nontrivial();
}
}

// ---------------------------------------------------------------- main
namespace mn
{
struct world { Src & src; Ctx & c; rn::world bg; int code = 0, alive = 0, finished = 0, raised = 0; };
world * w;
cobalt::promise<void> inner(int k, bool & stopped)
{
  rn::count a{w->alive};
  for (int i = 0; i < k; i++) { auto ex = co_await cobalt::this_coro::executor; co_await asio::post(ex, cobalt::use_op); }
  asio::steady_timer t(co_await cobalt::this_coro::executor, std::chrono::hours(1));
  auto [ec] = co_await cobalt::as_tuple(t.async_wait(cobalt::use_op));
  stopped = ec == asio::error::operation_aborted;
}
void property(Src & src, Ctx & c)
{
  world ww{src, c, {src, c}}; w = &ww;
  char name[] = "program"; char * argv[] = {name, nullptr};
  auto res = cobalt::this_thread::get_default_resource();
  int r = boost::cobalt::detail::cobalt_entry(1, argv);
  PBT_CHECK(c, r == ww.code, "main returned " << r << " not " << ww.code);
  PBT_CHECK(c, ww.finished == 1 && ww.alive == 0, "main ended with " << ww.alive << " coroutines left");
  PBT_CHECK(c, res == cobalt::this_thread::get_default_resource() && !cobalt::this_thread::has_executor(), "main left its executor or resource");
  if (ww.raised) c.mark_nontrivial();
}
}
boost::cobalt::cobalt_entry co_main(int argc, char ** argv)
{
  auto & w = *mn::w; auto & src = w.src; auto & c = w.c;
  rn::count a{w.alive};
  co_await cobalt::this_coro::throw_if_cancelled(false);
  auto ex = co_await cobalt::this_coro::executor;
  PBT_CHECK(c, ex == cobalt::this_thread::get_executor() && argc == 1 && argv[0][0] == 'p');
  int steps = int(src.below(6));
  for (int i = 0; i < steps; i++)
    switch (src.weighted({3, 2, 3, 2}))
    {
      case 0: co_await asio::post(ex, cobalt::use_op); break;
      case 1: { asio::steady_timer t(ex, std::chrono::microseconds(src.below(30))); co_await t.async_wait(cobalt::use_op); break; }
      case 2:
      {
        bool term = src.flip(); c.log(term ? "SIGTERM" : "SIGINT"); c.label(term ? "SIGTERM" : "SIGINT"); w.raised++;
        co_await cobalt::this_coro::reset_cancellation_state(asio::enable_total_cancellation());
        std::raise(term ? SIGTERM : SIGINT);
        bool stopped = false;
        if (src.flip()) { int k = int(src.below(3)); co_await mn::inner(k, stopped); }
        else
        {
          asio::steady_timer t(ex, std::chrono::hours(1)); auto [ec] = co_await cobalt::as_tuple(t.async_wait(cobalt::use_op));
          stopped = ec == asio::error::operation_aborted;
        }
        auto ct = co_await cobalt::this_coro::cancelled;
        PBT_CHECK(c, stopped && ct == (term ? asio::cancellation_type::terminal : asio::cancellation_type::total), "after a signal main sees cancellation " << int(ct));
        break;
      }
      case 3: rn::background(w.bg, int(src.below(3))); break;
    }
  // a signal which arrives while main ends
  if (src.chance(1, 2))
  {
    w.raised++; c.label("signal at the end"); c.log("signal at the end");
    std::raise(src.flip() ? SIGINT : SIGTERM);
    int k = int(src.below(5));
    for (int i = 0; i < k; i++) co_await asio::post(ex, cobalt::use_op);
  }
  w.finished++;
  w.code = int(src.below(256));
  co_return w.code;
}

int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C14", {
    {"run", "sequences and nestings of run() with and without an executor and resource set, over void, int, copyable and move-only results, with background coroutines, exceptions from the task and from handlers; non-trivial: two or more runs", 60000, 3000000, rn::property},
    {"main", "the main of a co_main with a random body, sent SIGINT and SIGTERM while waiting and while ending; non-trivial: with a signal", 20000, 1000000, mn::property, true, 10},
  });
}
