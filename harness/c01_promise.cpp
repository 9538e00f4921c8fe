// Promises: eager start, outcome delivered exactly once, lifetime operations at every point.
#include "gate.hpp"
using namespace env;
using pbt::Src; using pbt::Ctx;

enum st_kind { st_gate, st_ready, st_reset };
struct step_t { st_kind kind; on_cancel reaction; bool nothrow, swallow, immediate; };

struct body_t
{
  int id;
  std::vector<step_t> script;
  bool throws = false;
  // observed
  int starts = 0, frames = 0, ends = 0;
  bool first_suspension_reached = false;
  Outcome end;
  Gate * at = nullptr;
  bool state_cancelled = false;     // the coroutine's cancellation state must be set
  bool unreachable = false;         // nobody can receive the outcome
  int taken = 0;
  std::size_t want_cancels = 0;     // requests the gate it waits on must have seen
};

struct frame_guard : Live { body_t & b; explicit frame_guard(body_t & b) : b(b) { b.frames++; } ~frame_guard() { b.frames--; } };

template<typename T> struct model
{
  Src & src; Ctx & c; Env & e;
  std::deque<Gate> gates;
  std::deque<body_t> bodies;
  using P = cobalt::promise<T>;
  static constexpr std::size_t NS = 4;
  struct slot_t { std::optional<P> p; int body = -1; bool moved_from = false; bool awaited = false; bool moved_unfinished = false; };
  slot_t slots[NS];
  struct awaiter_t { std::optional<cobalt::promise<void>> p; int body; int slot; bool done = false; bool second = false; Outcome got; bool cancelled = false; };
  std::deque<awaiter_t> awaiters;
  int escapes = 0, must_escape = 0; bool dropping = false;

  model(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}

  cobalt::promise<T> body(body_t & b)
  {
    frame_guard g(b);
    b.starts++;
    c.log("body ", b.id, " starts");
    int n = 0;
    for (auto & s : b.script)
    {
      n++;
      if (s.kind == st_reset)
      {
        if (b.state_cancelled) c.label("reset_cancellation");
        co_await cobalt::this_coro::reset_cancellation_state();
        b.state_cancelled = false;
        continue;
      }
      auto & gt = gates.emplace_back(e, static_cast<int>(gates.size()));
      gt.reaction = s.reaction;
      gt.immediate_ready = s.kind == st_ready;
      gt.immediate_init = s.kind != st_ready && s.immediate;
      gt.imm_val = gt.id * 10 + 1;
      b.at = &gt; b.want_cancels = 0;
      bool was_cancelled = b.state_cancelled, aborted = false;
      try
      {
        int v;
        if (s.nothrow)
        {
          auto r = co_await cobalt::as_tuple(gt);
          if (std::get<0>(r)) { aborted = std::get<0>(r) == asio::error::operation_aborted; if (!aborted) c.fail("unexpected error from an operation"); v = -1; }
          else v = std::get<1>(r);
        }
        else v = co_await gt;
        if (!aborted) PBT_CHECK(c, v == gt.id * 10 + 1, "body " << b.id << " got another operation's value");
        PBT_CHECK(c, !was_cancelled, "body " << b.id << " awaited an operation after being cancelled, which must throw");
        PBT_CHECK(c, gt.completions == 1);
        if (aborted) PBT_CHECK(c, !gt.cancels.empty(), "operation aborted without a request");
      }
      catch (boost::system::system_error & se)
      {
        b.at = nullptr;
        PBT_CHECK(c, se.code() == asio::error::operation_aborted);
        if (was_cancelled) PBT_CHECK(c, gt.initiations == 0, "operation started although the coroutine was cancelled");
        else PBT_CHECK(c, !gt.cancels.empty(), "body " << b.id << " aborted without a request");
        if (!s.swallow) { end(b, {Outcome::aborted, 0}); throw; }
      }
      b.at = nullptr;
      PBT_CHECK(c, b.starts == 1 && b.frames == 1);
    }
    if (b.throws) { end(b, Outcome::err(b.id)); throw test_error(b.id); }
    if constexpr (std::is_void_v<T>) { end(b, Outcome::val(0)); co_return; }
    else { T t(b.id); end(b, Outcome::val(b.id)); if constexpr (std::is_copy_constructible_v<T>) { if (b.id % 2) { const T & ct = t; co_return ct; } } co_return t; }
  }
  void end(body_t & b, Outcome o)
  {
    b.ends++; b.end = o;
    // nobody can receive it: the exception goes to the executor
    if (o.kind != Outcome::value && b.unreachable && !dropping) { must_escape++; c.label("unreceived_exception"); }
    c.log("body ", b.id, " ends with ", o);
  }

  void took(int body, Outcome o, const char * how)
  {
    auto & b = bodies[static_cast<std::size_t>(body)];
    b.taken++;
    c.log("outcome of body ", body, " taken by ", how, ": ", o);
    PBT_CHECK(c, b.ends == 1, "outcome delivered before the body ended");
    PBT_CHECK(c, o == b.end, "body " << body << " ended with " << b.end << " but " << how << " reported " << o);
  }

  Outcome take_get(P & p)
  {
    try
    {
      if constexpr (std::is_void_v<T>) { p.get(); return Outcome::val(0); }
      else { auto v = p.get(); return Outcome::val(v.id); }
    }
    catch (...) { return Outcome::from(std::current_exception()); }
  }

  cobalt::promise<void> awaiter(awaiter_t & a, P & p, int form)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    try
    {
      if (form == 0 || (form == 2 && !requires {typename std::enable_if_t<std::is_void_v<T> || std::is_default_constructible_v<T>>;}))
      {
        if constexpr (std::is_void_v<T>) { co_await p; a.got = Outcome::val(0); }
        else { auto v = co_await p; a.got = Outcome::val(v.id); }
      }
      else if (form == 1)
      {
        auto r = co_await cobalt::as_result(p);
        if (r.has_error()) a.got = of_error(r.error());
        else if constexpr (std::is_void_v<T>) a.got = Outcome::val(0);
        else a.got = Outcome::val(r->id);
      }
      else
      {
        if constexpr (std::is_void_v<T>)
        {
          auto r = co_await cobalt::as_tuple(p);
          a.got = of_error(err_of(r)); if (a.got.kind == Outcome::none) a.got = Outcome::val(0);
        }
        else if constexpr (std::is_default_constructible_v<T>)
        {
          auto r = co_await cobalt::as_tuple(p);
          a.got = of_error(std::get<0>(r));
          if (a.got.kind == Outcome::none) a.got = Outcome::val(std::get<1>(r).id);
          else PBT_CHECK(c, std::get<1>(r).id == -1, "failed promise came with a value");
        }
      }
    }
    catch (...) { a.got = Outcome::from(std::current_exception()); }
    a.done = true;
    if (a.second)
      PBT_CHECK(c, a.got.kind == Outcome::other, "second awaiter of the same promise got " << a.got);
    else
      took(a.body, a.got, "co_await");
  }

  // whatever body throws with nobody to receive it reaches the executor
  template<typename F> void guarded(F && f)
  {
    try { f(); }
    catch (test_error &) { escapes++; }
    catch (boost::system::system_error & se) { PBT_CHECK(c, se.code() == asio::error::operation_aborted); escapes++; }
  }
  // runs handlers until none is left; false if there was none
  bool settle()
  {
    bool any = false;
    for (;;)
    {
      std::size_t k = 0; bool threw = true;
      guarded([&] { k = e.settle(); threw = false; });
      if (!k && !threw) return any;
      any = true;
    }
  }

  body_t & gen_body()
  {
    auto & b = bodies.emplace_back();
    b.id = static_cast<int>(bodies.size()) - 1;
    auto n = src.below(4);
    for (std::uint32_t i = 0; i < n; i++)
    {
      step_t s{};
      s.kind = src.weighted({6, 1, 1}) == 0 ? st_gate : src.flip() ? st_ready : st_reset;
      s.reaction = static_cast<on_cancel>(src.below(3));
      s.nothrow = src.flip(); s.swallow = src.flip(); s.immediate = src.chance(1, 8);
      b.script.push_back(s);
    }
    b.throws = src.chance(1, 3);
    return b;
  }

  // a cancellation request to body b is about to be sent: note what must follow
  void will_cancel(body_t & b)
  {
    if (b.ends || b.starts == 0) return;
    b.state_cancelled = true;
    if (b.at && b.at->waiting()) b.want_cancels = b.at->cancels.size() + 1;
  }
  struct expect_cancel
  {
    model & m; Gate * g = nullptr; std::size_t before = 0; int body; asio::cancellation_type ct;
    expect_cancel(model & m, int body, asio::cancellation_type ct = asio::cancellation_type::all) : m(m), body(body), ct(ct)
    {
      if (body < 0) return;
      auto & b = m.bodies[static_cast<std::size_t>(body)];
      if (b.ends) return;
      b.state_cancelled = true;
      g = b.at;
      if (g && !g->waiting()) g = nullptr; // its completion is already on the way
      if (g) before = g->cancels.size();
    }
    void done()
    {
      if (!g) return;
      PBT_CHECK(m.c, g->cancels.size() == before + 1, "cancellation of body " << body << " reached its operation " << g->cancels.size() - before << " times");
      if (g->cancels.size() == before + 1) PBT_CHECK(m.c, g->cancels.back() == (ct & (asio::cancellation_type::terminal | asio::cancellation_type::partial | asio::cancellation_type::total)), "cancellation type changed on the way");
    }
  };
  // dropping or overwriting the promise in slot s
  void forget(slot_t & s)
  {
    if (s.body >= 0) { auto & b = bodies[static_cast<std::size_t>(s.body)]; b.unreachable = true; }
    s.body = -1;
  }
  bool cancels_on_drop(slot_t & s) { return s.body >= 0 && s.p->attached() && !bodies[static_cast<std::size_t>(s.body)].ends; }

  void check_all()
  {
    for (auto & s : slots) if (s.p && s.body >= 0)
    {
      auto & b = bodies[static_cast<std::size_t>(s.body)];
      PBT_CHECK(c, s.p->ready() == (b.ends == 1), "ready() is " << s.p->ready() << " for body " << b.id);
      PBT_CHECK(c, static_cast<bool>(*s.p) == (b.taken == 0), "operator bool is " << static_cast<bool>(*s.p) << " for body " << b.id);
    }
    for (auto & b : bodies)
    {
      PBT_CHECK(c, b.starts == 1, "body " << b.id << " started " << b.starts << " times");
      PBT_CHECK(c, b.frames == (b.ends ? 0 : 1), "body " << b.id << " has " << b.frames << " live frame(s)");
      PBT_CHECK(c, b.ends <= 1);
    }
    for (auto & g : gates) PBT_CHECK(c, !g.stray_cancel, "cancellation delivered to a completed operation");
  }

  slot_t * pick(bool (*f)(slot_t &))
  {
    auto k = src.below(NS);
    for (std::size_t i = 0; i < NS; i++) { auto & s = slots[(k + i) % NS]; if (f(s)) return &s; }
    return nullptr;
  }

  void run()
  {
    auto n = 4 + src.below(20);
    int lifetime_ops = 0, suspended_lifetime = 0;
    for (std::uint32_t i = 0; i < n && !c.failed; i++)
    {
      switch (src.weighted({6, 6, 3, 3, 3, 3, 2, 2, 2, 2, 2}))
      {
        case 0: // create
        {
          auto s = pick([](slot_t & s) { return !s.p || (!s.awaited); });
          if (!s) break;
          auto & b = gen_body();
          bool over = s->p.has_value();
          if (over)
          {
            lifetime_ops++; c.label(s->moved_from ? "assign_over_moved_from" : s->body < 0 ? "assign_over_other" : bodies[s->body].ends ? "assign_over_finished" : "assign_over_running");
            expect_cancel x(*this, cancels_on_drop(*s) ? s->body : -1);
            if (x.g) suspended_lifetime++;
            forget(*s);
            c.log("slot ", s - slots, " = body ", b.id);
            P np = body(b);
            PBT_CHECK(c, b.starts == 1, "promise did not start eagerly");
            dropping = true; guarded([&] { *s->p = std::move(np); }); dropping = false;
            x.done();
          }
          else if (src.chance(1, 8))
          {
            c.log("detached body ", b.id); c.label("plus_detach");
            +body(b);
            b.unreachable = true;
            PBT_CHECK(c, b.starts == 1, "promise did not start eagerly");
            break;
          }
          else
          {
            c.log("slot ", s - slots, " := body ", b.id);
            s->p.emplace(body(b));
            PBT_CHECK(c, b.starts == 1, "promise did not start eagerly");
          }
          PBT_CHECK(c, b.ends || b.at, "body stopped without ending or awaiting");
          PBT_CHECK(c, s->p->attached(), "a new promise is attached");
          s->body = b.id; s->moved_from = false; s->awaited = false;
          break;
        }
        case 1: // complete a gate
        {
          if (gates.empty()) break;
          auto k = src.below(static_cast<std::uint32_t>(gates.size()));
          for (std::size_t j = 0; j < gates.size(); j++)
          {
            auto & g = gates[(k + j) % gates.size()];
            if (g.waiting()) { bool posted = src.flip(); c.log("complete operation ", g.id, posted ? " (posted)" : ""); guarded([&] { g.complete({}, g.id * 10 + 1, posted); }); break; }
          }
          break;
        }
        case 2: { auto k = 1 + src.below(3); c.log("step ", k); guarded([&] { e.step(k); }); break; }
        case 3: // await
        {
          auto s = pick([](slot_t & s) { return s.p && s.body >= 0; });
          if (!s) break;
          auto & b = bodies[static_cast<std::size_t>(s->body)];
          if (b.taken) break;
          bool second = s->awaited;
          auto & a = awaiters.emplace_back();
          a.body = s->body; a.slot = static_cast<int>(s - slots); a.second = second;
          if (second) c.label("second_awaiter");
          c.label(b.ends ? "await_finished" : "await_running");
          c.log("await slot ", s - slots, second ? " a second time" : "");
          if (!second) s->awaited = true;
          a.p.emplace(awaiter(a, *s->p, static_cast<int>(src.below(3))));
          if (second) PBT_CHECK(c, a.done, "second awaiter must fail at once");
          if (b.ends) PBT_CHECK(c, a.done, "await of a finished promise suspended");
          break;
        }
        case 4: // get
        {
          auto s = pick([](slot_t & s) { return s.p && s.body >= 0 && !s.awaited && s.p->ready(); });
          if (!s || bodies[static_cast<std::size_t>(s->body)].taken) break;
          c.label("get");
          took(s->body, take_get(*s->p), "get()");
          break;
        }
        case 5: // move construct / assign into another slot
        {
          auto s = pick([](slot_t & s) { return s.p && s.body >= 0 && !s.awaited; });
          auto d = pick([](slot_t & s) { return !s.awaited; });
          if (!s || !d || s == d) break;
          bool att = s->p->attached();
          lifetime_ops++; c.label("move");
          c.log("move slot ", s - slots, " to ", d - slots);
          if (!bodies[static_cast<std::size_t>(s->body)].ends) suspended_lifetime++;
          if (d->p)
          {
            c.label("move_assign");
            expect_cancel x(*this, cancels_on_drop(*d) ? d->body : -1);
            forget(*d);
            dropping = true; guarded([&] { *d->p = std::move(*s->p); }); dropping = false;
            x.done();
          }
          else d->p.emplace(std::move(*s->p));
          d->body = s->body; d->moved_from = false; d->awaited = false;
          s->moved_unfinished = !bodies[static_cast<std::size_t>(s->body)].ends;
          s->body = -1; s->moved_from = true;
          PBT_CHECK(c, d->p->attached() == att, "move changed attached()");
          PBT_CHECK(c, !s->p->attached(), "moved-from promise is still attached");
          break;
        }
        case 6: // drop
        {
          auto s = pick([](slot_t & s) { return s.p && !s.awaited; });
          if (!s) break;
          lifetime_ops++;
          c.log("drop slot ", s - slots, s->moved_from ? " (moved from)" : "");
          if (s->body >= 0 && !s->p->attached() && !bodies[s->body].ends) c.label("drop_detached_running");
          bool quiet = !cancels_on_drop(*s);
          expect_cancel x(*this, quiet ? -1 : s->body);
          Gate * g = s->body >= 0 ? bodies[static_cast<std::size_t>(s->body)].at : nullptr;
          auto nc = g ? g->cancels.size() : 0u;
          if (x.g) { suspended_lifetime++; c.label("drop_attached_running"); }
          forget(*s);
          dropping = true; s->p.reset(); dropping = false; s->moved_from = false;
          x.done();
          if (quiet && g) PBT_CHECK(c, g->cancels.size() == nc, "dropping a detached promise cancelled its body");
          break;
        }
        case 7: // cancel
        {
          auto s = pick([](slot_t & s) { return s.p.has_value(); });
          if (!s) break;
          constexpr asio::cancellation_type types[] = {asio::cancellation_type::terminal, asio::cancellation_type::partial, asio::cancellation_type::total, asio::cancellation_type::all};
          auto ct = types[src.below(4)];
          c.log("cancel slot ", s - slots);
          expect_cancel x(*this, s->body, ct);
          if (x.g) c.label("cancel_running");
          guarded([&] { s->p->cancel(ct); });
          x.done();
          break;
        }
        case 8: // detach / attach
        {
          auto s = pick([](slot_t & s) { return s.p && s.body >= 0; });
          if (!s) break;
          bool d = src.flip(); c.log(d ? "detach slot " : "attach slot ", s - slots);
          if (d) s->p->detach(); else s->p->attach();
          PBT_CHECK(c, s->p->attached() == !d);
          break;
        }
        case 9: // cancel an awaiter: forwarded to the body
        {
          for (auto & a : awaiters) if (!a.done && !a.cancelled && a.p)
          {
            a.cancelled = true; c.label("cancel_awaiter");
            c.log("cancel the awaiter of body ", a.body);
            expect_cancel x(*this, a.body);
            guarded([&] { a.p->cancel(); });
            x.done();
            break;
          }
          break;
        }
        case 10: // a promise that was moved from while it was running reports an error, it neither hangs nor invents a value
        {
          auto s = pick([](slot_t & s) { return s.p && s.moved_from && s.moved_unfinished; });
          if (!s) break;
          c.label("use_moved_from");
          auto f = src.below(3);
          c.log(f == 2 ? "get() of" : "await", " moved-from slot ", s - slots);
          Outcome o;
          PBT_CHECK(c, s->p->ready(), "a moved-from promise isn't ready");
          if (f == 2) { if (s->p->ready()) o = take_get(*s->p); }
          else
          {
            bool done = false;
            auto p = [&]() -> cobalt::promise<void>
            {
              if (f == 0)
                try { if constexpr (std::is_void_v<T>) { co_await *s->p; o = Outcome::val(0); } else { auto v = co_await *s->p; o = Outcome::val(v.id); } }
                catch (...) { o = Outcome::from(std::current_exception()); }
              else
              {
                auto r = co_await cobalt::as_result(*s->p);
                o = r.has_error() ? Outcome::from(r.error()) : Outcome::val(0);
              }
              done = true;
            }();
            PBT_CHECK(c, done, "awaiting a moved-from promise hangs");
          }
          PBT_CHECK(c, o.kind == Outcome::other, "using a moved-from promise gives " << o);
          break;
        }
      }
      if (!c.failed) check_all();
    }
    // let everything finish
    for (int r = 0; r < 200; r++)
    {
      bool any = false;
      for (std::size_t j = 0; j < gates.size(); j++) if (gates[j].waiting()) { any = true; auto & g = gates[j]; guarded([&] { g.complete({}, g.id * 10 + 1, false); }); }
      if (!settle() && !any) break;
    }
    if (!c.failed) check_all();
    for (auto & b : bodies) PBT_CHECK(c, b.ends == 1, "body " << b.id << " never ended");
    for (auto & a : awaiters) PBT_CHECK(c, a.done, "awaiter of body " << a.body << " never resumed");
    if (!c.failed)
      for (auto & s : slots) if (s.p && s.body >= 0 && !s.awaited && bodies[static_cast<std::size_t>(s.body)].taken == 0)
        took(s.body, take_get(*s.p), "get() at the end");
    PBT_CHECK(c, escapes == must_escape, escapes << " exceptions reached the executor instead of " << must_escape);
    for (auto & b : bodies) PBT_CHECK(c, b.taken <= 1, "outcome of body " << b.id << " delivered " << b.taken << " times");
    for (auto & s : slots) s.p.reset();
    awaiters.clear();
    if (suspended_lifetime && bodies.size() >= 2) c.mark_nontrivial();
  }
};

template<typename T> void body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e;
    std::size_t lost = 0;
    { model<T> m(src, c, e); m.run(); lost = static_cast<std::size_t>(m.must_escape); }
    e.settle();
    if (lost) c.leak_known = true;
    // KNOWN_FINDINGS: the frame of a coroutine whose exception nobody receives is not freed
    if (!c.failed) { PBT_CHECK(c, e.res.bad == 0, e.res.what); PBT_CHECK(c, e.res.live.size() <= lost, e.res.live.size() << " block(s) of the thread's resource never freed"); }
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " object(s) never destroyed");
}

int main(int argc, char ** argv)
{
  const char * d = "4-23 generated operations (create, await, get, move, assign over, drop, cancel, attach/detach, complete the awaited operation, run handlers) over 4 promise slots; "
                   "non-trivial: two or more bodies and a move, drop or assignment of a suspended one";
  return pbt::run_main(argc, argv, "C01", {
    {"copyable", d, 400000, 4000000, body<val>},
    {"moveonly", d, 300000, 4000000, body<mo>},
    {"nodefault", d, 150000, 2000000, body<nodef>},
    {"void", d, 400000, 4000000, body<void>},
  });
}
