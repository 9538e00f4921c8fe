// Generators: every yielded value once, in order; pushes reach their yield; bounded run-ahead; lifetime at every point.
#include "gate.hpp"
#include <boost/cobalt/async_for.hpp>
using namespace env;
using pbt::Src; using pbt::Ctx;

enum st_kind { st_gate, st_yield, st_reset };
struct step_t { st_kind kind; on_cancel reaction; bool swallow, by_ref; };
struct body_t
{
  int id; bool lazy = false; std::vector<step_t> script; int end_kind = 0; // 0 return, 1 throw
  int starts = 0, frames = 0; bool ended = false, began_first = false;
  std::vector<Outcome> produced;         // what awaiting must deliver, in order
  std::vector<int> pushes, received;     // pushed by awaiters / seen by the body
  int taken = 0;                         // outcomes delivered
  int takes_begun = 0;
  Gate * at = nullptr; bool state_cancelled = false, unreachable = false;
};
struct frame_guard : Live { body_t & b; explicit frame_guard(body_t & b) : b(b) { b.frames++; } ~frame_guard() { b.frames--; } };

template<typename Y, typename P> struct model
{
  using G = cobalt::generator<Y, P>;
  static constexpr bool pushes = !std::is_void_v<P>;
  Src & src; Ctx & c; Env & e;
  std::deque<Gate> gates; std::deque<body_t> bodies;
  static constexpr std::size_t NS = 3;
  struct slot_t { std::optional<G> g; int body = -1; bool moved_from = false; int awaited = 0; bool unusable = false; };
  slot_t slots[NS];
  struct awaiter_t { std::optional<cobalt::promise<void>> p; int slot, body; bool done = false, cancelled = false, waiting = false; std::vector<int> forms; };
  std::deque<awaiter_t> awaiters;
  int escapes = 0, must_escape = 0, next_push = 1; bool dropping = false;
  model(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}

  void produce(body_t & b, Outcome o, bool end)
  {
    c.log("body ", b.id, end ? " ends with " : " yields ", o);
    // a dropped generator's body may run on, but nobody sees what it produces
    if (end) { b.ended = true; if (o.kind != Outcome::value && b.unreachable && !dropping) { must_escape++; c.label("unreceived_exception"); } }
    b.produced.push_back(o);
    if (!b.unreachable)
    {
      if (b.lazy) PBT_CHECK(c, static_cast<int>(b.produced.size()) <= b.takes_begun, "lazy generator ran ahead");
      else PBT_CHECK(c, static_cast<int>(b.produced.size()) <= b.taken + 1, "eager generator ran ahead by more than one");
    }
  }
  void recv(body_t & b, int v)
  {
    b.received.push_back(v);
    auto k = b.received.size() - 1;
    PBT_CHECK(c, k < b.pushes.size() && b.pushes[k] == v, "body " << b.id << " received push " << v << " as number " << k);
  }

  G body(body_t & b)
  {
    frame_guard g(b);
    b.starts++;
    c.log("body ", b.id, " starts");
    if (b.lazy)
    {
      if constexpr (pushes) { auto v = co_await cobalt::this_coro::initial; recv(b, v.id); }
      else co_await cobalt::this_coro::initial;
      PBT_CHECK(c, b.takes_begun > 0, "lazy generator ran before it was awaited");
    }
    int k = 0;
    for (auto & s : b.script)
    {
      if (s.kind == st_reset) { co_await cobalt::this_coro::reset_cancellation_state(); b.state_cancelled = false; continue; }
      if (s.kind == st_yield)
      {
        int id = b.id * 100 + ++k;
        Y y(id);
        produce(b, Outcome::val(id), false);
        if constexpr (pushes)
        {
          if constexpr (std::is_copy_constructible_v<Y>) { if (s.by_ref) { const Y & cy = y; auto v = co_yield cy; recv(b, v.id); continue; } }
          auto v = co_yield std::move(y);
          recv(b, v.id);
        }
        else
        {
          if constexpr (std::is_copy_constructible_v<Y>) { if (s.by_ref) { const Y & cy = y; co_yield cy; PBT_CHECK(c, y.id == id); continue; } }
          co_yield std::move(y);
        }
        PBT_CHECK(c, !b.unreachable, "body resumed from a yield although its generator is gone");
        continue;
      }
      auto & gt = gates.emplace_back(e, static_cast<int>(gates.size()));
      gt.reaction = s.reaction; b.at = &gt;
      bool was_cancelled = b.state_cancelled;
      try
      {
        int v = co_await gt;
        PBT_CHECK(c, v == gt.id * 10 + 1);
        PBT_CHECK(c, !was_cancelled, "body " << b.id << " awaited an operation after being cancelled, which must throw");
      }
      catch (boost::system::system_error & se)
      {
        b.at = nullptr;
        PBT_CHECK(c, se.code() == asio::error::operation_aborted);
        if (!was_cancelled) PBT_CHECK(c, !gt.cancels.empty(), "body " << b.id << " aborted without a request");
        if (!s.swallow) { produce(b, {Outcome::aborted, 0}, true); throw; }
      }
      b.at = nullptr;
    }
    if (b.end_kind == 1) { produce(b, Outcome::err(b.id), true); throw test_error(b.id); }
    int id = b.id * 100 + 99;
    produce(b, Outcome::val(id), true);
    Y y(id);
    if constexpr (std::is_copy_constructible_v<Y>) if (b.id % 2) { const Y & cy = y; co_return cy; }
    co_return y;
  }

  void took(body_t & b, Outcome o, const char * how)
  {
    c.log("body ", b.id, ": ", how, " got ", o);
    PBT_CHECK(c, b.taken < static_cast<int>(b.produced.size()), how << " delivered " << o << " although the body produced nothing more");
    if (b.taken < static_cast<int>(b.produced.size()))
      PBT_CHECK(c, b.produced[static_cast<std::size_t>(b.taken)] == o, how << " delivered " << o << " instead of " << b.produced[static_cast<std::size_t>(b.taken)] << " as number " << b.taken);
    b.taken++;
  }
  template<typename Aw> cobalt::promise<Outcome> take(Aw aw, int form)
  {
    // runs inline: a promise starts eagerly and the awaiter awaits it at once
    if (form == 0)
    {
      Outcome o;
      try { Y y = co_await std::move(aw); o = Outcome::val(y.id); } catch (...) { o = Outcome::from(std::current_exception()); }
      co_return o;
    }
    if constexpr (std::is_default_constructible_v<Y>) if (form == 2)
    {
      auto r = co_await cobalt::as_tuple(std::move(aw));
      if (std::get<0>(r)) { PBT_CHECK(c, std::get<1>(r).id == -1); co_return of_error(std::get<0>(r)); }
      co_return Outcome::val(std::get<1>(r).id);
    }
    auto r = co_await cobalt::as_result(std::move(aw));
    if (r.has_error()) co_return of_error(r.error());
    co_return Outcome::val(r->id);
  }

  cobalt::promise<void> awaiter(awaiter_t & a)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    auto & b = bodies[static_cast<std::size_t>(a.body)];
    auto & s = slots[static_cast<std::size_t>(a.slot)];
    for (auto f : a.forms)
    {
      if (b.ended && b.taken == static_cast<int>(b.produced.size())) break;
      if (f / 3 == 1) co_await asio::post(e.ctx, cobalt::use_op);
      f %= 3;
      b.takes_begun++;
      a.waiting = true;
      Outcome o;
      bool ready = static_cast<int>(b.produced.size()) > b.taken;
      if constexpr (pushes)
      {
        int pid = next_push++;
        b.pushes.push_back(pid);
        P pv(pid);
        auto t = std::is_copy_constructible_v<P> && pid % 2 ? [&]{ if constexpr (std::is_copy_constructible_v<P>) { const P & cp = pv; return take((*s.g)(cp), f); } else return take((*s.g)(std::move(pv)), f); }()
                                                            : take((*s.g)(std::move(pv)), f);
        if (ready) PBT_CHECK(c, t.ready(), "await of a generator with a value available suspended");
        o = co_await t;
        if (std::is_copy_constructible_v<P> && pid % 2) PBT_CHECK(c, pv.id == pid, "push by const reference modified its argument");
      }
      else
      {
        auto t = take(s.g->operator co_await(), f);
        if (ready) PBT_CHECK(c, t.ready(), "await of a generator with a value available suspended");
        o = co_await t;
      }
      a.waiting = false;
      took(b, o, f == 0 ? "co_await" : f == 1 ? "as_result" : "as_tuple");
      if (o.kind != Outcome::value) break;
    }
    s.awaited = 0;
    a.done = true;
  }

  template<typename F> void guarded(F && f)
  {
    try { f(); }
    catch (test_error &) { escapes++; }
    catch (boost::system::system_error & se) { PBT_CHECK(c, se.code() == asio::error::operation_aborted); escapes++; }
  }
  bool settle()
  {
    bool any = false;
    for (;;)
    {
      std::size_t k = 0; bool threw = true;
      guarded([&] { k = e.settle(); threw = false; });
      if (!k && !threw) return any;
      any = true;
    }
  }
  body_t & gen_body()
  {
    auto & b = bodies.emplace_back();
    b.id = static_cast<int>(bodies.size()) - 1;
    auto n = src.below(6);
    for (std::uint32_t i = 0; i < n; i++)
    {
      step_t s{};
      auto k = src.weighted({4, 3, 1});
      s.kind = k == 0 ? st_yield : k == 1 ? st_gate : st_reset;
      s.reaction = static_cast<on_cancel>(src.below(3)); s.swallow = src.flip(); s.by_ref = src.flip();
      b.script.push_back(s);
    }
    b.end_kind = src.chance(1, 3); b.lazy = src.flip();
    return b;
  }
  struct expect_cancel
  {
    model & m; Gate * g = nullptr; std::size_t before = 0; int body;
    expect_cancel(model & m, int body) : m(m), body(body)
    {
      if (body < 0) return;
      auto & b = m.bodies[static_cast<std::size_t>(body)];
      if (b.ended) return;
      b.state_cancelled = true;
      g = b.at;
      if (g && !g->waiting()) g = nullptr;
      if (g) before = g->cancels.size();
    }
    void done() { if (g) PBT_CHECK(m.c, g->cancels.size() == before + 1, "cancellation of body " << body << " reached its operation " << g->cancels.size() - before << " times"); }
  };
  void forget(slot_t & s) { if (s.body >= 0) bodies[static_cast<std::size_t>(s.body)].unreachable = true; s.body = -1; }

  void check_all()
  {
    for (auto & s : slots) if (s.g && s.body >= 0)
    {
      auto & b = bodies[static_cast<std::size_t>(s.body)];
      bool avail = static_cast<int>(b.produced.size()) > b.taken;
      PBT_CHECK(c, s.g->ready() == avail, "ready() is " << s.g->ready() << " for body " << b.id << " with " << b.produced.size() - b.taken << " value(s) available");
      PBT_CHECK(c, static_cast<bool>(*s.g) == (avail || !b.ended), "operator bool is " << static_cast<bool>(*s.g) << " for body " << b.id);
    }
    for (auto & b : bodies)
    {
      PBT_CHECK(c, b.starts == 1);
      PBT_CHECK(c, b.frames == 0 || (b.frames == 1 && !b.ended), "body " << b.id << " has " << b.frames << " live frame(s)");
      if (!b.unreachable && !b.ended) PBT_CHECK(c, b.frames == 1, "frame of body " << b.id << " is gone though it didn't end");
      // suspended at a yield (or initially) without a generator: the frame must be gone
      if (b.unreachable && !b.at) PBT_CHECK(c, b.frames == 0 || !e_idle, "frame of body " << b.id << " outlives its generator");
    }
    for (auto & g : gates) PBT_CHECK(c, !g.stray_cancel, "cancellation delivered to a completed operation");
  }
  bool e_idle = false;

  slot_t * pick(bool (*f)(slot_t &))
  {
    auto k = src.below(NS);
    for (std::size_t i = 0; i < NS; i++) { auto & s = slots[(k + i) % NS]; if (f(s)) return &s; }
    return nullptr;
  }

  void run()
  {
    auto n = 4 + src.below(20);
    int lifetime = 0, values = 0;
    for (std::uint32_t i = 0; i < n && !c.failed; i++)
    {
      e_idle = false;
      switch (src.weighted({4, 6, 3, 6, 3, 2, 2, 2, 1, 2}))
      {
        case 0:
        {
          auto s = pick([](slot_t & s) { return !s.awaited; });
          if (!s) break;
          auto & b = gen_body();
          if (b.lazy) c.label("lazy");
          if (s->g)
          {
            c.label(s->moved_from ? "assign_over_moved_from" : "assign_over");
            expect_cancel x(*this, s->body);
            forget(*s);
            G ng = body(b);
            c.log("slot ", s - slots, " = body ", b.id);
            dropping = true; guarded([&] { *s->g = std::move(ng); }); dropping = false;
            x.done(); lifetime++;
          }
          else { c.log("slot ", s - slots, " := body ", b.id); s->g.emplace(body(b)); }
          PBT_CHECK(c, b.starts == 1, "generator did not start eagerly");
          s->body = b.id; s->moved_from = false;
          break;
        }
        case 1:
        {
          if (gates.empty()) break;
          auto k = src.below(static_cast<std::uint32_t>(gates.size()));
          for (std::size_t j = 0; j < gates.size(); j++)
          {
            auto & g = gates[(k + j) % gates.size()];
            if (g.waiting()) { bool posted = src.flip(); c.log("complete operation ", g.id); guarded([&] { g.complete({}, g.id * 10 + 1, posted); }); break; }
          }
          break;
        }
        case 2: { auto k = src.below(4); c.log("step ", k); if (k) guarded([&] { e.step(k); }); else { settle(); e_idle = true; } break; }
        case 3:
        {
          auto s = pick([](slot_t & s) { return s.g && s.body >= 0 && !s.awaited; });
          if (!s) break;
          auto & b = bodies[static_cast<std::size_t>(s->body)];
          if (b.ended && b.taken == static_cast<int>(b.produced.size())) break;
          auto & a = awaiters.emplace_back();
          a.slot = static_cast<int>(s - slots); a.body = s->body;
          auto k = 1 + src.below(4);
          for (std::uint32_t j = 0; j < k; j++) a.forms.push_back(static_cast<int>(src.below(6)));
          s->awaited = 1;
          c.log("awaiter takes ", k, " from slot ", s - slots);
          a.p.emplace(awaiter(a));
          values += static_cast<int>(k);
          break;
        }
        case 4:
        {
          auto s = pick([](slot_t & s) { return s.g && s.body >= 0 && !s.awaited && s.g->ready(); });
          if (!s) break;
          auto & b = bodies[static_cast<std::size_t>(s->body)];
          c.label("get");
          Outcome o;
          try { Y y = s->g->get(); o = Outcome::val(y.id); } catch (...) { o = Outcome::from(std::current_exception()); }
          b.takes_begun++;
          took(b, o, "get()");
          break;
        }
        case 5:
        {
          auto s = pick([](slot_t & s) { return s.g && s.body >= 0 && !s.awaited; });
          auto d = pick([](slot_t & s) { return !s.awaited; });
          if (!s || !d || s == d) break;
          c.label("move"); lifetime++;
          c.log("move slot ", s - slots, " to ", d - slots);
          if (d->g)
          {
            c.label("move_assign");
            expect_cancel x(*this, d->body);
            forget(*d);
            dropping = true; guarded([&] { *d->g = std::move(*s->g); }); dropping = false;
            x.done();
          }
          else d->g.emplace(std::move(*s->g));
          s->unusable = !bodies[static_cast<std::size_t>(s->body)].ended;
          d->body = s->body; d->moved_from = false; s->body = -1; s->moved_from = true;
          break;
        }
        case 6:
        {
          auto s = pick([](slot_t & s) { return s.g && !s.awaited; });
          if (!s) break;
          c.log("drop slot ", s - slots); lifetime++;
          if (s->body >= 0 && !bodies[static_cast<std::size_t>(s->body)].ended) c.label(bodies[static_cast<std::size_t>(s->body)].at ? "drop_running" : "drop_at_yield");
          expect_cancel x(*this, s->body);
          forget(*s);
          dropping = true; s->g.reset(); dropping = false; s->moved_from = false;
          x.done();
          break;
        }
        case 7:
        {
          auto s = pick([](slot_t & s) { return s.g && s.body >= 0; });
          if (!s) break;
          c.label("cancel"); c.log("cancel slot ", s - slots);
          expect_cancel x(*this, s->body);
          guarded([&] { s->g->cancel(); });
          x.done();
          break;
        }
        case 8:
        {
          for (auto & a : awaiters) if (!a.done && !a.cancelled && a.waiting)
          {
            a.cancelled = true; c.label("cancel_awaiter"); c.log("cancel the awaiter of body ", a.body);
            expect_cancel x(*this, a.body);
            guarded([&] { a.p->cancel(); });
            x.done();
            break;
          }
          break;
        }
        case 9: // a generator that was moved from before its end reports an error, it neither hangs nor invents a value
        {
          auto s = pick([](slot_t & s) { return s.g && s.moved_from && s.unusable; });
          if (!s) break;
          s->unusable = false; // the error is reported once
          c.label("use_moved_from"); c.log("await moved-from slot ", s - slots);
          auto f = static_cast<int>(src.below(3));
          auto t = [&]
          {
            if constexpr (pushes) { P pv(next_push++); return take((*s->g)(std::move(pv)), f); }
            else return take(s->g->operator co_await(), f);
          }();
          PBT_CHECK(c, t.ready(), "awaiting a moved-from generator hangs");
          if (t.ready()) { auto o = t.get(); PBT_CHECK(c, o.kind == Outcome::other, "awaiting a moved-from generator gives " << o); }
          break;
        }
      }
      if (!c.failed) check_all();
    }
    // let everything finish
    for (int r = 0; r < 500; r++)
    {
      bool any = false;
      for (std::size_t j = 0; j < gates.size(); j++) if (gates[j].waiting()) { any = true; auto & g = gates[j]; guarded([&] { g.complete({}, g.id * 10 + 1, false); }); }
      if (!settle() && !any) break;
    }
    e_idle = true;
    if (!c.failed) check_all();
    for (auto & a : awaiters) PBT_CHECK(c, a.done, "awaiter of body " << a.body << " never resumed");
    // drain what is left
    for (std::size_t k = 0; k < NS && !c.failed; k++)
    {
      auto & s = slots[k];
      if (!s.g || s.body < 0) continue;
      auto & b = bodies[static_cast<std::size_t>(s.body)];
      for (int r = 0; r < 40 && !c.failed && !(b.ended && b.taken == static_cast<int>(b.produced.size())); r++)
      {
        auto & a = awaiters.emplace_back();
        a.slot = static_cast<int>(k); a.body = b.id; a.forms = {r % 3};
        a.p.emplace(awaiter(a));
        for (int q = 0; q < 50; q++)
        {
          bool any = false;
          for (std::size_t k = 0; k < gates.size(); k++) if (gates[k].waiting()) { any = true; auto & g = gates[k]; guarded([&] { g.complete({}, g.id * 10 + 1, false); }); }
          if (!settle() && !any) break;
        }
        PBT_CHECK(c, a.done, "generator " << b.id << " hangs");
      }
      PBT_CHECK(c, b.ended, "generator " << b.id << " never ends");
      PBT_CHECK(c, !*s.g, "generator is true after its end was delivered");
      // its end was delivered: another await reports an error
      if (!c.failed)
      {
        std::optional<Outcome> o;
        auto t = [&]() -> cobalt::promise<void>
        {
          try { if constexpr (pushes) { co_await (*s.g)(P(7)); } else co_await *s.g; o = Outcome::val(0); }
          catch (...) { o = Outcome{Outcome::other, 0}; }
        }();
        PBT_CHECK(c, o && o->kind == Outcome::other, "await after the end must report an error");
      }
    }
    PBT_CHECK(c, escapes == must_escape, escapes << " exceptions reached the executor instead of " << must_escape);
    for (auto & s : slots) { dropping = true; s.g.reset(); dropping = false; }
    awaiters.clear();
    settle();
    for (auto & b : bodies) PBT_CHECK(c, b.frames == 0, "frame of body " << b.id << " leaked");
    if (values >= 2 && lifetime && bodies.size() >= 2) c.mark_nontrivial();
  }
};

template<typename Y, typename P> void body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e; std::size_t lost = 0;
    { model<Y, P> m(src, c, e); m.run(); lost = static_cast<std::size_t>(m.must_escape); }
    e.settle();
    if (lost) c.leak_known = true; // KNOWN_FINDINGS: the frame of a coroutine whose exception nobody receives is not freed
    if (!c.failed) { PBT_CHECK(c, e.res.bad == 0, e.res.what); PBT_CHECK(c, e.res.live.size() <= lost, e.res.live.size() << " block(s) of the thread's resource never freed"); }
    if (!c.failed && !lost) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " object(s) never destroyed");
  }
  Live::n = live0;
}

// ------------------------------------------------------------------ BOOST_COBALT_FOR
cobalt::generator<val> numbers(Env & e, int n, bool lazy, std::uint32_t posts, int thrower)
{
  if (lazy) co_await cobalt::this_coro::initial;
  for (int i = 1; i < n; i++)
  {
    if (posts >> (i % 16) & 1) co_await asio::post(e.ctx, cobalt::use_op);
    if (i == thrower) throw test_error(i);
    co_yield val(i);
  }
  co_return val(n);
}
cobalt::promise<void> loop(Env & e, int n, bool lazy, std::uint32_t posts, int thrower, int brk, bool rvalue, std::vector<int> & got, Outcome & ex)
{
  try
  {
    if (rvalue) { BOOST_COBALT_FOR(auto v, numbers(e, n, lazy, posts, thrower)) { got.push_back(v.id); if (v.id == brk) break; if (v.id % 2) continue; } }
    else { auto g = numbers(e, n, lazy, posts, thrower); BOOST_COBALT_FOR(auto v, g) { got.push_back(v.id); if (v.id == brk) break; } }
  }
  catch (...) { ex = Outcome::from(std::current_exception()); }
}
void for_body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e;
    {
      int n = 1 + static_cast<int>(src.below(10)); bool lazy = src.flip(); auto posts = src.below(65536);
      int thrower = src.chance(1, 3) ? static_cast<int>(src.below(10)) : -1, brk = src.chance(1, 3) ? static_cast<int>(1 + src.below(10)) : -1; bool rv = src.flip();
      std::vector<int> got, want; Outcome ex, wex;
      for (int i = 1; i <= n; i++) { if (i == thrower && i < n) { wex = Outcome::err(i); break; } want.push_back(i); if (i == brk) break; }
      auto p = loop(e, n, lazy, posts, thrower, brk, rv, got, ex);
      e.settle();
      PBT_CHECK(c, p.ready(), "loop hangs");
      PBT_CHECK(c, got == want, "loop saw " << got.size() << " values instead of " << want.size());
      PBT_CHECK(c, ex == wex, "loop ended with " << ex << " instead of " << wex);
      if (n > 2 && posts) c.mark_nontrivial();
    }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, "object leaked");
}

int main(int argc, char ** argv)
{
  const char * d = "4-23 generated operations (create eager/lazy, await 1-4 values in three forms with pushes, get, move, assign over, drop, cancel, complete operations, run handlers) over 3 generators "
                   "with bodies of up to 5 yields/awaits; non-trivial: two bodies, two takes and a lifetime operation";
  return pbt::run_main(argc, argv, "C03", {
    {"copyable", d, 400000, 3000000, body<val, void>},
    {"moveonly", d, 200000, 3000000, body<mo, void>},
    {"nodefault", d, 150000, 3000000, body<nodef, val>},
    {"push", d, 400000, 3000000, body<val, val>},
    {"push_moveonly", d, 200000, 3000000, body<mo, mo>},
    {"for_each", "BOOST_COBALT_FOR over a generator of 1-10 values with posts, a throw or a break; non-trivial: >2 values with suspensions", 30000, 300000, for_body},
  });
}
