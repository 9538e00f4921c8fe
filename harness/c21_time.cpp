// C21: timers and sleeps in virtual time (this program replaces the clocks), signal sets against a model.
#include "gate.hpp"
#include <boost/cobalt/io/steady_timer.hpp>
#include <boost/cobalt/io/system_timer.hpp>
#include <boost/cobalt/io/sleep.hpp>
#include <boost/cobalt/io/signal_set.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/asio/steady_timer.hpp>
#include <csignal>
#include <deque>
#include <random>
#include <time.h>
using namespace env;
namespace io = cobalt::io;
using pbt::Src; using pbt::Ctx;
// ---- the clocks: real, except while a case runs
static bool frozen = false; static std::int64_t steady_ns = 0, system_ns = 0;
static std::int64_t real_clock(clockid_t id) { timespec t; ::clock_gettime(id, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(duration(frozen ? steady_ns : real_clock(CLOCK_MONOTONIC))); }
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept { return time_point(duration(frozen ? system_ns : real_clock(CLOCK_REALTIME))); }
using sclk = std::chrono::steady_clock; using yclk = std::chrono::system_clock; using ns = std::chrono::nanoseconds;

struct wait_rec
{
  int timer = -1; bool sys = false, done = false, may_abort = false, must_abort = false, must_end = false, is_race = false, gone = false; std::int64_t expiry = 0; error_code ec; int order = 0; std::int64_t done_at = 0; std::size_t winner = 9, want = 9; std::optional<cobalt::promise<void>> p;
  std::int64_t now() const { return sys ? system_ns : steady_ns; }
};
struct timer_t_ { std::optional<io::steady_timer> s; std::optional<io::system_timer> y; std::int64_t expiry = 0; bool sys() const { return y.has_value(); } };
static constexpr std::int64_t never = INT64_MAX, ms = 1000000;
static std::int64_t plus(std::int64_t now, std::int64_t d) { std::int64_t r; return __builtin_add_overflow(now, d, &r) ? (d > 0 ? never : INT64_MIN) : r; }
struct world
{
  Src & src; Ctx & c; Env & e; std::array<timer_t_, 5> ts; std::deque<wait_rec> waits; int counter = 0, effective = 0; std::mt19937 rng{1}; std::array<bool, 3> boxed{};
  world(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}
  void finish(wait_rec & w, error_code ec)
  {
    PBT_CHECK(c, !w.done, "completed twice"); w.done = true; w.ec = ec; w.order = ++counter; w.done_at = w.now(); c.log("wait for ", w.expiry, " done: ", ec.message());
    if (!ec) { PBT_CHECK(c, w.expiry <= w.now(), "completed at " << w.now() << " although due at " << w.expiry); PBT_CHECK(c, !w.must_abort, "completed without error although cancelled before it was due"); effective++; }
    else { PBT_CHECK(c, ec == asio::error::operation_aborted, ec.message()); PBT_CHECK(c, w.may_abort, "aborted although nobody cancelled it"); }
  }
  cobalt::promise<void> on_timer(wait_rec & w)
  {
    auto & t = ts[w.timer]; error_code ec;
    if (t.sys()) { auto r = co_await cobalt::as_tuple(t.y->wait()); ec = std::get<0>(r); } else { auto r = co_await cobalt::as_tuple(t.s->wait()); ec = std::get<0>(r); }
    finish(w, ec);
  }
  template<typename S> cobalt::promise<void> on_sleep(wait_rec & w, S s, bool twice)
  {
    auto r = co_await cobalt::as_tuple(s); auto ec = std::get<0>(r);
    if (!ec && twice) { auto r2 = co_await cobalt::as_tuple(s); ec = std::get<0>(r2); } // due already
    finish(w, ec);
  }
  template<typename A, typename B> cobalt::promise<void> on_race(wait_rec & w, A a, B b)
  {
    error_code ec; try { std::size_t i = co_await cobalt::race(rng, a, b); w.winner = i; } catch (boost::system::system_error & s) { ec = s.code(); }
    finish(w, ec);
  }
  wait_rec & launch(std::int64_t expiry, bool sys, int timer = -1) { auto & w = waits.emplace_back(); w.expiry = expiry; w.sys = sys; w.timer = timer; return w; }
  void started(wait_rec & w, bool late = false)
  {
    if (w.expiry < w.now()) PBT_CHECK(c, w.done && !w.ec, "waiting for something already due suspends" << (late ? " (awaited later)" : "")); else PBT_CHECK(c, !w.done, "a wait that isn't due doesn't suspend"); if (w.done) c.label("due_already");
  }
  std::int64_t some_duration() { switch (src.weighted({6, 3, 1, 1, 1})) { case 0: return src.range(1, 40) * ms; case 1: return src.range(0, 3) * ms; case 2: return -src.range(1, 50) * ms; case 3: return src.range(0, 2000); default: return src.flip() ? INT64_MAX : INT64_MIN; } }
  bool pending(std::size_t i) { return !waits[i].done && !waits[i].gone; }
  void cancelling(wait_rec & w) { if (w.done) return; w.may_abort = w.must_end = true; if (w.expiry > w.now()) w.must_abort = true; }
  void check(bool kicked)
  {
    for (auto & w : waits)
    {
      if (w.gone) continue;
      if (w.must_end) PBT_CHECK(c, w.done, "a cancelled wait is pending");
      if (kicked && w.expiry <= w.now()) PBT_CHECK(c, w.done, "due at " << w.expiry << ", not completed at " << w.now());
      if (w.done && w.is_race && !w.ec && w.want < 2) PBT_CHECK(c, w.winner == w.want, "the later of two sleeps won");
    }
    for (auto & t : ts)
    {
      auto ex = t.sys() ? t.y->expiry().time_since_epoch().count() : t.s->expiry().time_since_epoch().count(); PBT_CHECK(c, ex == t.expiry, "expiry is " << ex << ", should be " << t.expiry);
      PBT_CHECK(c, (t.sys() ? t.y->expired() : t.s->expired()) == (t.expiry < (t.sys() ? system_ns : steady_ns)), "expired is wrong");
    }
  }
  // let the reactor look at its timers: asio has a timerfd for that, which knows only the real clock
  void kick()
  {
    int before = counter; bool fired = false; { asio::steady_timer k(e.ctx, sclk::now() - std::chrono::hours(24 * 365 * 200)); k.async_wait([&](error_code) { fired = true; }); for (int i = 0; i < 1000 && !fired; i++) e.settle(); } e.settle();
    PBT_CHECK(c, fired, "harness: the reactor did not look at its timers"); check(true);
    std::vector<wait_rec *> d; for (auto & w : waits) if (w.done && !w.ec && w.order > before) d.push_back(&w); std::sort(d.begin(), d.end(), [](auto a, auto b) { return a->order < b->order; });
    for (int sys = 0; sys < 2; sys++) { std::int64_t last = INT64_MIN; for (auto w : d) if (w->sys == bool(sys) && !w->is_race) { PBT_CHECK(c, w->expiry >= last, "a wait due at " << w->expiry << " completed after one due at " << last); last = w->expiry; } }
    if (d.size() > 1) c.label("several_due");
  }
  void advance(std::int64_t d) { steady_ns += d; if (!src.chance(1, 10)) system_ns += d; else system_ns += src.range(-20, 20) * ms; }
  void set_timer(int i)
  {
    auto & t = ts[i]; bool abs = src.flip(); auto now = t.sys() ? system_ns : steady_ns; auto d = some_duration(); if (abs && (d == INT64_MAX || d == INT64_MIN)) d = 0; bool fresh = src.chance(1, 4);
    for (auto & w : waits) if (w.timer == i) cancelling(w);
    c.log("timer ", i, fresh ? " is replaced, due in " : " is due in ", d); t.expiry = plus(now, d); auto ex = e.ctx.get_executor();
    if (fresh) { c.label("replaced"); if (t.sys()) { t.y.reset(); if (abs) t.y.emplace(yclk::time_point(ns(t.expiry)), ex); else t.y.emplace(ns(d), ex); } else { t.s.reset(); if (abs) t.s.emplace(sclk::time_point(ns(t.expiry)), ex); else t.s.emplace(ns(d), ex); } }
    else if (t.sys()) { if (abs) t.y->reset(yclk::time_point(ns(t.expiry))); else t.y->reset(ns(d)); } else { if (abs) t.s->reset(sclk::time_point(ns(t.expiry))); else t.s->reset(ns(d)); }
  }
  void run()
  {
    auto ex = e.ctx.get_executor(); for (int i = 0; i < 5; i++) { if (i < 3) ts[i].s.emplace(ex); else ts[i].y.emplace(ex); }
    for (int steps = 6 + int(src.below(50)); steps-- && !c.failed;)
    {
      int i = int(src.below(5)); auto & t = ts[i];
      switch (src.weighted({6, 8, 5, 8, 3, 2, 2, 1, 2}))
      {
        case 0: set_timer(i); break;
        case 1: { auto & w = launch(t.expiry, t.sys(), i); c.log("wait for timer ", i); w.p.emplace(on_timer(w)); started(w); break; }
        case 2:
        {
          auto d = some_duration(); bool twice = src.flip(); int form = int(src.below(4)); std::int64_t later = src.chance(1, 3) ? src.range(1, 10) * ms : 0; c.log("sleep ", d);
          if (form == 0) { auto s = io::sleep(ns(d)); auto ex = plus(steady_ns, d); if (later) { advance(later); kick(); } auto & w = launch(ex, false); w.p.emplace(on_sleep(w, std::move(s), twice)); started(w, later); }
          else if (form == 1) { if (d == INT64_MAX || d == INT64_MIN) d = 0; auto at = steady_ns + d; auto s = io::sleep(sclk::time_point(ns(at))); auto & w = launch(at, false); w.p.emplace(on_sleep(w, std::move(s), twice)); started(w); }
          else if (form == 2) { if (d == INT64_MAX || d == INT64_MIN) d = 0; auto at = system_ns + d; auto s = io::sleep(yclk::time_point(ns(at))); if (later) { advance(later); kick(); } auto & w = launch(at, true); w.p.emplace(on_sleep(w, std::move(s), false)); started(w, later); }
          else { auto n = src.range(0, 30); auto s = io::sleep(std::chrono::milliseconds(n)); auto & w = launch(steady_ns + n * ms, false); w.p.emplace(on_sleep(w, std::move(s), twice)); started(w); }
          break;
        }
        case 3: { auto d = src.chance(1, 6) ? 0 : src.range(0, 25) * ms; c.log("+", d); advance(d); if (src.chance(3, 4)) kick(); break; }
        case 4: { c.log("cancel timer ", i); for (auto & w : waits) if (w.timer == i) cancelling(w); if (t.sys()) t.y->cancel(); else t.s->cancel(); c.label("cancel_timer"); break; }
        case 5: if (!waits.empty()) { auto & w = waits[src.below(std::uint32_t(waits.size()))]; if (w.done || !w.p) break; c.log("cancel one"); cancelling(w); c.label("cancel_one"); if (src.flip()) w.p->cancel(); else w.p.reset(); } break;
        case 6: e.settle(); check(false); break;
        case 7: // moved, with what waits for it
        {
          c.label("moved"); if (t.sys()) { std::optional<io::system_timer> o(std::move(*t.y)); t.y.reset(); t.y.emplace(std::move(*o)); } else { std::optional<io::steady_timer> o(std::move(*t.s)); t.s.reset(); t.s.emplace(std::move(*o)); }
          break;
        }
        case 8: // the earlier of two
        {
          auto a = src.range(1, 30) * ms, b = src.range(1, 30) * ms; auto & w = launch(steady_ns + std::min(a, b), false); w.is_race = true; if (a != b) w.want = a < b ? 0 : 1; c.log("race ", a, " ", b); w.p.emplace(on_race(w, io::sleep(ns(a)), io::sleep(ns(b)))); started(w); c.label("race"); break;
        }
      }
    }
    if (c.failed) return;
    e.settle(); check(false); kick(); if (effective > 3) c.mark_nontrivial();
    // everything that can still become due
    advance(100 * ms); system_ns = std::max(system_ns, steady_ns) + 100 * ms; kick(); for (auto & w : waits) if (!c.failed && w.expiry != never) PBT_CHECK(c, w.done || w.expiry > w.now(), "never completed");
    for (auto & w : waits) cancelling(w); for (auto & w : waits) w.p.reset(); e.settle(); check(false);
  }
};
static void timers(Src & src, Ctx & c)
{
  frozen = true; steady_ns = system_ns = 1000 * 1000 * ms; 
  { Env e; { world w(src, c, e); w.run(); for (auto & x : w.waits) { w.cancelling(x); x.p.reset(); } e.settle(); } e.settle(); if (!c.failed) e.check_memory(c); }
  frozen = false;
}

// ---- signals
struct sig_world
{
  struct rec { int set; bool done = false, may_abort = false, must_end = false; error_code ec; int sig = 0; int pending_since = 0; std::optional<cobalt::promise<void>> p; };
  struct set_t { std::optional<io::signal_set> s; std::map<int, int> undelivered; };
  Src & src; Ctx & c; Env & e; set_t sets[3]; std::deque<rec> waits; std::deque<int> raised; int delivered = 0;
  // what a wait may report: filled in when the harness knows
  std::map<const rec *, std::vector<int>> expected;
  sig_world(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}
  cobalt::promise<void> wait(rec & w)
  {
    auto r = co_await cobalt::as_tuple(sets[w.set].s->wait()); w.done = true; w.ec = std::get<0>(r); w.sig = std::get<1>(r); c.log("set ", w.set, " got ", w.sig, ": ", w.ec.message());
    if (w.ec) PBT_CHECK(c, w.ec == asio::error::operation_aborted && w.may_abort, "a wait fails: " << w.ec.message());
    else { auto & x = expected[&w]; PBT_CHECK(c, std::find(x.begin(), x.end(), w.sig) != x.end(), "signal " << w.sig << " reported that was not delivered to this wait"); delivered++; }
  }
  // without work the context would not look at the signal pipe
  boost::asio::executor_work_guard<boost::asio::io_context::executor_type> guard{e.ctx.get_executor()};
  bool registered(int sig) { for (auto & s : sets) if (s.undelivered.count(sig)) return true; return false; }
  void settle()
  {
    // asio delivers in the order of raising: to every wait pending on a set, or the set keeps it
    for (int sig : raised) for (int k = 0; k < 3; k++)
    {
      auto it = sets[k].undelivered.find(sig); if (it == sets[k].undelivered.end()) continue;
      bool any = false; for (auto & w : waits) if (w.set == k && !w.done && !w.must_end && expected[&w].empty()) { expected[&w] = {sig}; any = true; }
      if (!any) it->second++;
    }
    raised.clear(); e.settle();
    for (auto & w : waits) { if (w.must_end) PBT_CHECK(c, w.done, "a cancelled wait is pending"); PBT_CHECK(c, w.done == (w.must_end || !expected[&w].empty()), w.done ? "a wait completed without signal" : "a signal is missing"); }
  }
  void run()
  {
    static const int sigs[] = {SIGUSR1, SIGUSR2, SIGHUP, SIGWINCH, SIGCONT}; auto ex = e.ctx.get_executor();
    for (auto & s : sets) { if (src.flip()) s.s.emplace(ex); else { s.s.emplace(std::initializer_list<int>{SIGUSR1, SIGHUP}, ex); s.undelivered[SIGUSR1]; s.undelivered[SIGHUP]; } }
    for (int steps = 5 + int(src.below(40)); steps-- && !c.failed;)
    {
      int k = int(src.below(3)), sig = sigs[src.below(5)]; auto & s = sets[k];
      switch (src.weighted({4, 8, 8, 4, 2, 1, 1, 2, 1}))
      {
        case 0: { settle(); c.log("add ", sig, " to ", k); auto r = s.s->add(sig); PBT_CHECK(c, r.has_value()); s.undelivered[sig]; break; }
        case 1: if (registered(sig) && raised.size() < 20) { c.log("raise ", sig); ::raise(sig); raised.push_back(sig); } break;
        case 2:
        {
          settle(); if (c.failed) break; auto & w = waits.emplace_back(); w.set = k; c.log("wait ", k); std::vector<int> x; for (auto & [g, n] : s.undelivered) if (n) x.push_back(g);
          if (!x.empty()) expected[&w] = x;
          w.p.emplace(wait(w)); PBT_CHECK(c, !w.done, "a wait completed at once");
          if (!x.empty()) { c.label("kept"); e.settle(); if (!w.done) { PBT_CHECK(c, false, "a signal the set kept is missing"); break; } if (!c.failed) s.undelivered[w.sig]--; }
          break;
        }
        case 3: settle(); break;
        case 4: { settle(); c.log("remove ", sig, " from ", k); auto r = s.s->remove(sig); PBT_CHECK(c, r.has_value()); s.undelivered.erase(sig); c.label("remove"); break; }
        case 5: { settle(); c.log("clear ", k); auto r = s.s->clear(); PBT_CHECK(c, r.has_value()); s.undelivered.clear(); c.label("clear"); break; }
        case 6: { settle(); c.log("cancel ", k); for (auto & w : waits) if (w.set == k && !w.done) w.may_abort = w.must_end = true; auto r = s.s->cancel(); PBT_CHECK(c, r.has_value()); c.label("cancel_set"); break; }
        case 7: if (!waits.empty()) { settle(); auto & w = waits[src.below(std::uint32_t(waits.size()))]; if (w.done || !w.p) break; w.may_abort = w.must_end = true; c.log("cancel one"); c.label("cancel_one"); if (src.flip()) w.p->cancel(); else w.p.reset(); } break;
        case 8:
        {
          settle(); static const int bad[] = {-1, 1000, SIGKILL, SIGSTOP}; auto r = s.s->add(bad[src.below(4)]); PBT_CHECK(c, r.has_error(), "an impossible signal is added"); bool threw = false; try { io::signal_set t({SIGUSR1, 5000}, ex); } catch (boost::system::system_error &) { threw = true; } PBT_CHECK(c, threw, "a set with an impossible signal is made"); break;
        }
      }
    }
    if (c.failed) return;
    settle(); if (delivered > 2) c.mark_nontrivial();
  }
};
static void signals(Src & src, Ctx & c)
{
  Env e; { sig_world w(src, c, e); w.run(); e.settle(); for (auto & x : w.waits) { x.may_abort = x.must_end = true; x.p.reset(); } e.settle(); } e.settle(); if (!c.failed) e.check_memory(c);
}
int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C21", {
    {"timers", "6-55 steps (set, replace, move, wait, sleep by duration or time point, race of sleeps, cancel one or all, advance the clocks) on three steady and two system timers in virtual time; non-trivial: four or more waits completed when due", 60000, 1500000, timers, false},
    {"signals", "5-44 steps (add, remove, clear, raise, wait, cancel one or all) on three signal sets; non-trivial: three or more signals delivered", 40000, 1000000, signals, false},
  });
}
