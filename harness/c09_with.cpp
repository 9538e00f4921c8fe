// C09: with.
#include "gate.hpp"
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/race.hpp>
using namespace env;
using pbt::Src; using pbt::Ctx;

struct script { std::vector<on_cancel> steps; std::vector<char> ready, swallow; bool throws = false; };

struct wcase
{
  Src & src; Ctx & c; Env & e; Clock clk;
  std::deque<Gate> gates;
  struct part_t { script s; int starts = 0, ends = 0, locals = 0, start_tick = 0, end_tick = 0; Outcome o; Gate * at = nullptr; } body, td;
  int with_resources = 0;  // live and not moved from
  bool replace = false, done = false, orphan = false; Outcome result; int done_tick = 0, stop_tick = 0; Outcome passed; bool race_stopped = false;
  Gate * stop = nullptr; bool via_race = false, never_awaited = false; int waited = 0;
  wcase(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}

  struct resource : Live
  {
    wcase * w;
    explicit resource(wcase & m) : w(&m) { w->with_resources++; }
    resource(resource && o) noexcept : w(std::exchange(o.w, nullptr)) {}
    ~resource() { if (w) w->with_resources--; }
    cobalt::promise<void> await_exit(std::exception_ptr ep) &&
    {
      w->enter_teardown(ep);
      return w->template run<cobalt::promise<void>>(w->td, w, this);
    }
  };
  struct local : Live { part_t & p; explicit local(part_t & p) : p(p) { p.locals++; } ~local() { p.locals--; } };

  void enter_teardown(std::exception_ptr ep)
  {
    passed = Outcome::from(ep);
    PBT_CHECK(c, body.ends == 1, "teardown called before the body ended");
    PBT_CHECK(c, body.locals == 0, "teardown called while the body's locals live");
    PBT_CHECK(c, td.starts == 0, "teardown called twice");
    PBT_CHECK(c, passed == (body.o.kind == Outcome::value ? Outcome{} : body.o), "teardown received " << passed << ", the body ended with " << body.o);
  }
  void start(part_t & p) { p.starts++; p.start_tick = clk.tick(); c.log(&p == &body ? "body" : "teardown", " starts"); PBT_CHECK(c, p.starts == 1, "started twice"); }
  void end(part_t & p, Outcome o) { p.ends++; p.o = o; p.end_tick = clk.tick(); c.log(&p == &body ? "body" : "teardown", " ends with ", o); PBT_CHECK(c, with_resources == 1, "the resource died before the end of the " << (&p == &body ? "body" : "teardown")); }

  template<typename C> struct val_of { using type = void; };
  template<typename C> C run(part_t & p, wcase *, const resource * r)
  {
    using T = decltype(std::declval<C>().operator co_await().await_resume());
    co_await cobalt::this_coro::throw_if_cancelled(false);
    local l{p};
    start(p);
    for (std::size_t i = 0; i < p.s.steps.size(); i++)
    {
      auto & g = gates.emplace_back(e, static_cast<int>(gates.size()));
      g.reaction = p.s.steps[i]; g.immediate_ready = p.s.ready[i]; g.imm_val = 100 + g.id;
      p.at = &g;
      bool sw = p.s.swallow[i];
      try { auto v = co_await g; PBT_CHECK(c, v == 100 + g.id); }
      catch (boost::system::system_error & se) { p.at = nullptr; if (!sw && !orphan) { end(p, {Outcome::aborted, 0}); throw; } }
      p.at = nullptr;
      PBT_CHECK(c, with_resources == 1 && r->w == this, "the resource isn't intact while the " << (&p == &body ? "body" : "teardown") << " runs");
    }
    if (p.s.throws && !orphan) { end(p, Outcome::err(&p == &body ? 1 : 2)); throw test_error(&p == &body ? 1 : 2); }
    end(p, Outcome::val(std::is_void_v<T> ? 0 : 5));
    if constexpr (!std::is_void_v<T>) co_return T(5);
  }
  template<typename T> T run_sync(const resource & r)
  {
    local l{body};
    start(body);
    PBT_CHECK(c, r.w == this);
    if (body.s.throws) { end(body, Outcome::err(1)); throw test_error(1); }
    end(body, Outcome::val(std::is_void_v<T> ? 0 : 5));
    if constexpr (!std::is_void_v<T>) return T(5);
  }

  // body form: 0 function, 1 promise, 2 task.  teardown: 0 promise by value ptr, 1 task with ptr by reference (may be replaced), 2 await_exit
  template<typename T, int BF, int TF> auto make()
  {
    auto bf = [this](resource & r)
    {
      if constexpr (BF == 0) return run_sync<T>(r);
      else if constexpr (BF == 1) return run<cobalt::promise<T>>(body, this, &r);
      else return run<cobalt::task<T>>(body, this, &r);
    };
    if constexpr (TF == 0)
      return cobalt::with(resource(*this), bf, [this](auto && r, std::exception_ptr ep) { enter_teardown(ep); return run<cobalt::promise<void>>(td, this, &r); });
    else if constexpr (TF == 1)
      return cobalt::with(resource(*this), bf, [this](auto && r, std::exception_ptr & ep)
      {
        enter_teardown(ep);
        if (replace && ep) ep = std::make_exception_ptr(test_error(9));
        return run<cobalt::task<void>>(td, this, &r);
      });
    else
      return cobalt::with(resource(*this), bf);
  }
  template<typename Coro, typename T, int BF, int TF> Coro await_it()
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    try
    {
      if (via_race)
      {
        if constexpr (std::is_void_v<T>)
        {
          auto i = co_await cobalt::left_race(make<T, BF, TF>(), *stop);
          if (i.index() == 1) race_stopped = true; else result = Outcome::val(0);
        }
        else
        {
          auto i = co_await cobalt::left_race(make<T, BF, TF>(), *stop);
          if (i.index() == 1) race_stopped = true; else result = Outcome::val(id_of(boost::variant2::get<0>(i)));
        }
      }
      else if (never_awaited) { auto w = make<T, BF, TF>(); (void)w; }
      else if constexpr (std::is_void_v<T>) { co_await make<T, BF, TF>(); result = Outcome::val(0); }
      else { T v = co_await make<T, BF, TF>(); result = Outcome::val(id_of(v)); }
    }
    catch (...) { result = Outcome::from(std::current_exception()); }
    done = true; done_tick = clk.tick();
    c.log("with completes with ", result);
    PBT_CHECK(c, with_resources == 0, "the resource outlives with");
    PBT_CHECK(c, body.locals == 0 && td.locals == 0, "a local outlives with");
    if (!never_awaited) PBT_CHECK(c, body.ends == 1 && td.ends == 1, "with completed without the end of body and teardown");
  }
  void gen(script & s, bool sync = false)
  {
    auto n = sync ? 0 : src.below(4);
    for (std::uint32_t i = 0; i < n; i++) { s.steps.push_back(static_cast<on_cancel>(src.below(3))); s.ready.push_back(src.chance(1, 5)); s.swallow.push_back(src.flip()); }
    s.throws = src.chance(1, 3);
  }
  part_t * current() { return body.at ? &body : td.at ? &td : nullptr; }
  void observe()
  {
    for (auto & g : gates)
    {
      PBT_CHECK(c, g.initiations <= 1 && g.completions <= 1 && !g.stray_cancel, "operation started, completed or cancelled out of turn");
    }
  }
  template<typename T, int BF, int TF> void run_case()
  {
    gen(body.s, BF == 0); gen(td.s);
    replace = src.flip(); never_awaited = src.chance(1, 20);
    via_race = src.chance(1, 4) && !never_awaited;
    if (via_race) { stop = &gates.emplace_back(e, 1000); stop->reaction = static_cast<on_cancel>(src.below(3)); stop->on_complete = [this](error_code ec, int) { if (!stop_tick) { stop_tick = clk.tick(); if (ec) stop_tick = 1 << 30; } }; }
    std::optional<cobalt::promise<void>> p; std::optional<cobalt::task<void>> t;
    bool as_task = src.flip();
    auto drive = [](cobalt::task<void> & t) -> cobalt::promise<void> { co_await t; };
    if (as_task) { t.emplace(await_it<cobalt::task<void>, T, BF, TF>()); p.emplace(drive(*t)); }
    else p.emplace(await_it<cobalt::promise<void>, T, BF, TF>());
    observe();
    if (never_awaited)
    {
      e.settle(); c.label("never_awaited");
      PBT_CHECK(c, done && body.starts == 0 && td.starts == 0, "with ran without being awaited");
      return;
    }
    bool cancelled = false;
    auto teardown_at = src.chance(1, 10) ? 1 + src.below(5) : 0u;
    for (std::uint32_t i = 0; i < 60 && !c.failed && !done; i++)
    {
      if (teardown_at && i + 1 == teardown_at)
      {
        e.settle(); if (done) break;
        c.label("teardown"); c.log("drop all operations"); orphan = true;
        for (std::size_t j = 0; j < gates.size(); j++) gates[j].drop();
        e.settle(); p.reset(); t.reset(); e.settle();
        PBT_CHECK(c, with_resources == 0 && body.locals == 0 && td.locals == 0, "abandoned with left its resource or locals");
        c.mark_nontrivial();
        return;
      }
      auto cur = current();
      if (cur && cur->at->waiting()) waited++;
      switch (src.weighted({4, 3, 2, via_race ? 1u : 0u}))
      {
        case 0:
          if (cur && cur->at->waiting()) { auto & g = *cur->at; bool posted = src.chance(1, 3); c.log("complete ", g.id, posted ? " (posted)" : ""); g.complete({}, 100 + g.id, posted); }
          break;
        case 1: e.step(1 + src.below(3)); break;
        case 2:
        {
          using ct = asio::cancellation_type; const ct a[] = {ct::terminal, ct::partial, ct::total, ct::all};
          auto k = a[src.below(4)];
          auto g = cur && cur->at->waiting() ? cur->at : nullptr; auto n = g ? g->cancels.size() : 0u;
          c.label(cur == &body ? "cancelled_body" : cur == &td ? "cancelled_teardown" : "cancelled_between"); c.log("cancel ", int(k));
          cancelled = true;
          p->cancel(k);
          // the enclosing coroutines filter nothing; a race forwards it, too
          // (a race that is decided has told its losers already)
          if (g && !(via_race && stop->completions)) PBT_CHECK(c, (via_race ? g->cancels.size() > n : g->cancels.size() == n + 1) && (int(g->cancels[n]) & 7) == (int(k) & 7), "the cancellation didn't reach what with awaits");
          break;
        }
        case 3:
          if (stop && stop->waiting()) { c.label("lost_race"); c.log("complete the other"); auto g = cur && cur->at->waiting() ? cur->at : nullptr; auto n = g ? g->cancels.size() : 0u; stop->complete({}, 1); if (g) PBT_CHECK(c, g->cancels.size() >= n + 1, "losing a race didn't cancel what with awaits"); }
          break;
      }
      observe();
    }
    for (int i = 0; i < 100 && !done && !c.failed; i++)
    {
      e.settle();
      if (auto cur = current(); cur && cur->at->waiting()) cur->at->complete({}, 100 + cur->at->id);
      else if (stop && stop->waiting() && !done) stop->complete({}, 1);
    }
    PBT_CHECK(c, done, "with never completes");
    e.settle(); observe();
    if (c.failed) return;
    PBT_CHECK(c, body.starts == 1 && body.ends == 1 && td.starts == 1 && td.ends == 1, "body ran " << body.starts << " times, teardown " << td.starts);
    Outcome want = body.o.kind == Outcome::value ? (td.o.kind == Outcome::value ? body.o : td.o) : body.o;
    if (body.o.kind != Outcome::value && TF == 1 && replace) want = Outcome::err(9);
    if (via_race)
    {
      bool stop_first = stop_tick && stop_tick < td.end_tick;
      // either may win if the other operation was cancelled along
      if (stop_first && stop_tick != 1 << 30) PBT_CHECK(c, race_stopped, "the race was decided by the operation, but reports " << result);
      else if (!race_stopped && !cancelled) PBT_CHECK(c, result == want, "race with " << want << " reports " << result);
    }
    else PBT_CHECK(c, result == want, "with completed with " << result << ", should with " << want << " (body: " << body.o << ", teardown: " << td.o << ")");
    c.label(want.kind == Outcome::value ? "succeeded" : body.o.kind != Outcome::value ? "body_failed" : "teardown_failed");
    if (waited) c.mark_nontrivial();
    p.reset();
  }
};

template<typename T> void with_body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e;
    {
      wcase w(src, c, e);
      switch (src.below(9))
      {
        case 0: w.run_case<T, 0, 0>(); break; case 1: w.run_case<T, 0, 1>(); break; case 2: w.run_case<T, 0, 2>(); break;
        case 3: w.run_case<T, 1, 0>(); break; case 4: w.run_case<T, 1, 1>(); break; case 5: w.run_case<T, 1, 2>(); break;
        case 6: w.run_case<T, 2, 0>(); break; case 7: w.run_case<T, 2, 1>(); break; case 8: w.run_case<T, 2, 2>(); break;
      }
      if (c.failed) { w.orphan = true; for (std::size_t k = 0; k < w.gates.size(); k++) w.gates[k].drop(); e.settle(); }
    }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " object(s) never destroyed");
  Live::n = live0;
}

int main(int argc, char ** argv)
{
  const char * d = "body (function, promise, task) and teardown (promise, task, await_exit) scripts of 0-3 operations, outcomes, completion, cancellation, a race around it, teardown of everything generated; non-trivial: with had to suspend";
  return pbt::run_main(argc, argv, "C09", {
    {"void", d, 250000, 4000000, with_body<void>},
    {"copyable", d, 200000, 3000000, with_body<val>},
    {"moveonly", d, 200000, 3000000, with_body<mo>},
    {"nodefault", d, 200000, 3000000, with_body<nodef>},
  });
}
