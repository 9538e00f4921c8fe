// Tasks: lazy, run once, on the awaiter's executor; moves, drops, assignments, spawn, cancellation and teardown at every point.
#include "gate.hpp"
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/noop.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/cancellation_signal.hpp>
using namespace env;
using pbt::Src; using pbt::Ctx;

enum st_kind { st_gate, st_ready, st_reset, st_sub };
struct step_t { st_kind kind; on_cancel reaction; bool nothrow, swallow; int sub = -1; int form = 0; };
struct body_t
{
  int id; std::vector<step_t> script; bool throws = false;
  int starts = 0, frames = 0, args = 0, ends = 0, taken = 0;
  Outcome end;
  Gate * at = nullptr; int sub = -1;    // what it waits for
  bool state_cancelled = false, unsure = false;
  bool may_run = false;                 // awaited or spawned
  int exec = -1;                        // executor it must observe
};
struct arg_t : Live
{
  body_t * b;
  explicit arg_t(body_t & b) : b(&b) { b.args++; }
  arg_t(arg_t && o) noexcept : Live(o), b(o.b) { b->args++; }
  ~arg_t() { b->args--; }
};
struct frame_guard : Live { body_t & b; explicit frame_guard(body_t & b) : b(b) { b.frames++; } ~frame_guard() { b.frames--; } };

// awaits a task in one of three forms and records the outcome
#define AWAIT(expr, form, o)                                                                                   \
  try                                                                                                          \
  {                                                                                                            \
    if (form == 1)                                                                                             \
    {                                                                                                          \
      auto r = co_await cobalt::as_result(expr);                                                               \
      if (r.has_error()) o = of_error(r.error());                                                              \
      else if constexpr (std::is_void_v<T>) o = Outcome::val(0); else o = Outcome::val(r->id);                 \
    }                                                                                                          \
    else if (form == 2 && spawnable)                                                                           \
    {                                                                                                          \
      if constexpr (spawnable)                                                                                 \
      {                                                                                                        \
        auto r = co_await cobalt::as_tuple(expr);                                                              \
        o = of_error(err_of(r));                                                                               \
        if constexpr (std::is_void_v<T>) { if (o.kind == Outcome::none) o = Outcome::val(0); }                 \
        else if (o.kind == Outcome::none) o = Outcome::val(std::get<1>(r).id);                                 \
      }                                                                                                        \
    }                                                                                                          \
    else                                                                                                       \
    {                                                                                                          \
      if constexpr (std::is_void_v<T>) { co_await expr; o = Outcome::val(0); }                                 \
      else { T v = co_await expr; o = Outcome::val(v.id); }                                                    \
    }                                                                                                          \
  }                                                                                                            \
  catch (...) { o = Outcome::from(std::current_exception()); }

template<typename T> struct model
{
  using Tk = cobalt::task<T>;
  static constexpr bool spawnable = std::is_void_v<T> || std::is_default_constructible_v<T>;
  Src & src; Ctx & c; Env & e; asio::io_context ctx2{1};
  cobalt::executor exs[2];
  std::deque<body_t> bodies; std::deque<Gate> gates;
  static constexpr std::size_t NS = 3;
  struct slot_t { std::optional<Tk> t; int body = -1; bool moved_from = false; bool awaited = false; };
  slot_t slots[NS];
  struct awaiter_t { std::optional<cobalt::promise<void>> p; int slot = -1, body = -1; bool done = false, cancelled = false; };
  std::deque<awaiter_t> awaiters;
  struct spawn_t { asio::cancellation_signal sig; int body; int calls = 0, live = 0; bool cancelled = false, in_call = true; };
  std::deque<spawn_t> spawns;
  bool torn_down = false;
  model(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) { exs[0] = e.ctx.get_executor(); exs[1] = ctx2.get_executor(); }

  body_t & B(int i) { return bodies[static_cast<std::size_t>(i)]; }
  void end(body_t & b, Outcome o) { b.ends++; b.end = o; c.log("body ", b.id, " ends with ", o); }

  void took(body_t & b, Outcome o, const char * how)
  {
    c.log("outcome of body ", b.id, " taken by ", how, ": ", o);
    if (b.starts == 0) { PBT_CHECK(c, o.kind == Outcome::aborted, how << " reported " << o << " for a task that never ran"); return; }
    b.taken++;
    PBT_CHECK(c, b.ends == 1, "outcome delivered before the body ended");
    PBT_CHECK(c, o == b.end, "body " << b.id << " ended with " << b.end << " but " << how << " reported " << o);
    PBT_CHECK(c, b.taken == 1, "outcome delivered twice");
  }

  Tk make(body_t & b) { auto t = body(b, arg_t{b}); PBT_CHECK(c, b.starts == 0 && b.frames == 0, "a task started when it was called"); PBT_CHECK(c, b.args == 1); return t; }

  Tk body(body_t & b, arg_t)
  {
    frame_guard g(b);
    b.starts++;
    c.log("body ", b.id, " starts");
    PBT_CHECK(c, b.may_run, "task started although nobody awaits it");
    PBT_CHECK(c, co_await cobalt::this_coro::executor == exs[b.exec], "body " << b.id << " observes another executor than its awaiter's");
    for (auto & s : b.script)
    {
      bool was = b.state_cancelled;
      if (s.kind == st_reset) { co_await cobalt::this_coro::reset_cancellation_state(); b.state_cancelled = false; continue; }
      if (s.kind == st_sub)
      {
        auto & sb = B(s.sub);
        Outcome o;
        sb.exec = b.exec; sb.may_run = true; sb.unsure = b.unsure;
        b.sub = sb.id;
        if (s.form >= 3) { AWAIT(make(sb), s.form - 3, o) }
        else { auto t = make(sb); b.sub = sb.id; AWAIT(t, s.form, o) }
        b.sub = -1;
        took(sb, o, "the parent");
        if (!b.unsure) PBT_CHECK(c, (sb.starts == 0) == was, "child of a " << (was ? "" : "not ") << "cancelled task " << (sb.starts ? "ran" : "did not run"));
        PBT_CHECK(c, sb.frames == 0 && sb.args == 0, "child frame still alive after it was awaited");
        if (o.kind != Outcome::value && !s.swallow) { end(b, o); if (o.kind == Outcome::error) throw test_error(o.id); throw boost::system::system_error(asio::error::operation_aborted); }
        continue;
      }
      auto & gt = gates.emplace_back(e, static_cast<int>(gates.size()));
      gt.reaction = s.reaction; gt.immediate_ready = s.kind == st_ready; gt.imm_val = gt.id * 10 + 1;
      b.at = &gt;
      bool aborted = false;
      try
      {
        int v;
        if (s.nothrow)
        {
          auto r = co_await cobalt::as_tuple(gt);
          aborted = std::get<0>(r) == asio::error::operation_aborted; v = std::get<1>(r);
        }
        else v = co_await gt;
        if (aborted) PBT_CHECK(c, !gt.cancels.empty(), "operation aborted without a request");
        else PBT_CHECK(c, v == gt.id * 10 + 1, "body " << b.id << " got another operation's value");
        if (!b.unsure) PBT_CHECK(c, !was, "body " << b.id << " awaited an operation after being cancelled, which must throw");
      }
      catch (boost::system::system_error & se)
      {
        b.at = nullptr;
        PBT_CHECK(c, se.code() == asio::error::operation_aborted);
        if (!b.unsure)
        {
          if (was) PBT_CHECK(c, gt.initiations == 0, "operation started although the coroutine was cancelled");
          else PBT_CHECK(c, !gt.cancels.empty(), "body " << b.id << " aborted without a request");
        }
        if (!s.swallow) { end(b, {Outcome::aborted, 0}); throw; }
      }
      b.at = nullptr;
      PBT_CHECK(c, b.starts == 1 && b.frames == 1 && b.args == 1);
    }
    if (b.throws) { end(b, Outcome::err(b.id)); throw test_error(b.id); }
    if constexpr (std::is_void_v<T>) { end(b, Outcome::val(0)); co_return; }
    else { T t(b.id); end(b, Outcome::val(b.id)); if constexpr (std::is_copy_constructible_v<T>) { if (b.id % 2) { const T & ct = t; co_return ct; } } co_return t; }
  }

  cobalt::promise<void> awaiter(awaiter_t & a, Tk & t, int form, asio::executor_arg_t, cobalt::executor)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    Outcome o;
    AWAIT(t, form, o)
    a.done = true;
    took(B(a.body), o, "co_await");
  }
  cobalt::promise<void> owner(awaiter_t & a, Tk t, int form, asio::executor_arg_t, cobalt::executor)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    Outcome o;
    AWAIT(std::move(t), form, o)
    a.done = true;
    took(B(a.body), o, "co_await");
  }

  // the innermost coroutine of the chain and all on the way are cancelled
  struct expect_cancel
  {
    model & m; Gate * g = nullptr; std::size_t before = 0; int body;
    expect_cancel(model & m, int body, bool later = false) : m(m), body(body)
    {
      std::vector<int> chain;
      for (int i = body; i >= 0; i = m.B(i).sub) chain.push_back(i);
      if (chain.empty()) return;
      auto & leaf = m.B(chain.back());
      if (!leaf.ends && leaf.at && leaf.at->waiting()) { g = leaf.at; before = g->cancels.size(); }
      for (auto i : chain)
      {
        auto & b = m.B(i);
        if (b.ends) continue;
        if (later && !g) b.unsure = true; // it may run on before the request arrives
        else b.state_cancelled = true;
      }
    }
    void done() { if (g) PBT_CHECK(m.c, g->cancels.size() == before + 1, "cancellation of body " << body << " reached the innermost operation " << g->cancels.size() - before << " times"); }
  };

  std::size_t poll(std::size_t k)
  {
    std::size_t n = 0;
    while (n < k)
    {
      auto m = e.step(1);
      ctx2.restart(); m += ctx2.poll_one();
      if (!m) break;
      n += m;
    }
    return n;
  }
  bool settle() { return poll(100000) > 0; }

  body_t & gen_body(int depth = 0)
  {
    auto id = static_cast<int>(bodies.size());
    { auto & b = bodies.emplace_back(); b.id = id; }
    auto n = src.below(4);
    std::vector<step_t> script;
    for (std::uint32_t i = 0; i < n; i++)
    {
      step_t s{};
      auto k = src.weighted({6, 1, 1, depth < 3 ? 3u : 0u});
      s.kind = k == 0 ? st_gate : k == 1 ? st_ready : k == 2 ? st_reset : st_sub;
      s.reaction = static_cast<on_cancel>(src.below(3));
      s.nothrow = src.flip(); s.swallow = src.flip();
      if (s.kind == st_sub) { s.form = static_cast<int>(src.below(6)); s.sub = gen_body(depth + 1).id; c.label(depth ? "nested_deep" : "nested"); }
      script.push_back(s);
    }
    auto & b = B(id);
    b.script = std::move(script);
    b.throws = src.chance(1, 3);
    return b;
  }

  void check_all()
  {
    for (auto & s : slots) if (s.t && s.body >= 0 && !s.awaited)
    {
      auto & b = B(s.body);
      PBT_CHECK(c, b.starts == 0 && b.frames == 0 && b.args == 1, "unawaited task " << b.id << " started or lost its arguments");
    }
    for (auto & b : bodies)
    {
      PBT_CHECK(c, b.starts <= 1, "body " << b.id << " ran " << b.starts << " times");
      PBT_CHECK(c, b.starts <= (b.may_run ? 1 : 0));
      if (torn_down) PBT_CHECK(c, b.frames == 0 && b.args == 0, "frame of body " << b.id << " outlives everything that refers to it");
      else PBT_CHECK(c, b.frames == (b.starts && !b.ends ? 1 : 0), "body " << b.id << " has " << b.frames << " live frame(s)");
      if (b.ends) PBT_CHECK(c, b.args == 0, "arguments of body " << b.id << " outlive it");
    }
    for (auto & g : gates) PBT_CHECK(c, !g.stray_cancel, "cancellation delivered to a completed operation");
  }
  slot_t * pick(bool (*f)(slot_t &))
  {
    auto k = src.below(NS);
    for (std::size_t i = 0; i < NS; i++) { auto & s = slots[(k + i) % NS]; if (f(s)) return &s; }
    return nullptr;
  }
  void dropped(slot_t & s)
  {
    if (s.body >= 0 && !s.awaited)
    {
      auto & b = B(s.body);
      PBT_CHECK(c, b.starts == 0 && b.args == 0, "dropping an unawaited task " << (b.starts ? "ran it" : "leaked its arguments"));
    }
  }

  struct spawn_handler // knows whether it is alive
  {
    model * m; spawn_t * s;
    spawn_handler(model * m, spawn_t * s) : m(m), s(s) { s->live++; }
    spawn_handler(spawn_handler && o) noexcept : m(o.m), s(o.s) { s->live++; }
    spawn_handler(const spawn_handler & o) : m(o.m), s(o.s) { s->live++; }
    ~spawn_handler() { s->live--; }
    template<typename ... V> void operator()(std::exception_ptr ep, V ... v)
    {
      auto & b = m->B(s->body);
      s->calls++;
      PBT_CHECK(m->c, !s->in_call, "spawn called its handler from inside spawn");
      PBT_CHECK(m->c, b.args == 0 && b.frames == 0, "the task's frame is still alive when its completion handler runs");
      Outcome o = of_error(ep);
      if (!ep) { o = Outcome::val(0); ((o = Outcome::val(v.id)), ...); }
      else { bool def = ((v.id == -1) && ... && true); PBT_CHECK(m->c, def, "failed task came with a value"); }
      m->took(b, o, "spawn");
    }
  };

  void run()
  {
    auto n = 3 + src.below(18);
    int lifetime = 0, ran = 0;
    for (std::uint32_t i = 0; i < n && !c.failed; i++)
    {
      switch (src.weighted({5, 6, 3, 4, 2, 3, 2, 2, 2, 2}))
      {
        case 0:
        {
          auto s = pick([](slot_t & s) { return !s.awaited; });
          if (!s) break;
          auto & b = gen_body();
          c.log("slot ", s - slots, " = body ", b.id);
          if (s->t)
          {
            if constexpr (std::is_move_assignable_v<Tk>)
            {
              c.label(s->moved_from ? "assign_over_moved_from" : s->body < 0 ? "assign_over_finished" : "assign_over"); lifetime++;
              *s->t = make(b);
              dropped(*s);
            }
          }
          else s->t.emplace(make(b));
          s->body = b.id; s->moved_from = false; s->awaited = false;
          break;
        }
        case 1:
        {
          if (gates.empty()) break;
          auto k = src.below(static_cast<std::uint32_t>(gates.size()));
          for (std::size_t j = 0; j < gates.size(); j++)
          {
            auto & g = gates[(k + j) % gates.size()];
            if (g.waiting()) { bool posted = src.flip(); c.log("complete operation ", g.id); g.complete({}, g.id * 10 + 1, posted); break; }
          }
          break;
        }
        case 2: { auto k = src.below(4); c.log("step ", k); if (k) poll(k); else settle(); break; }
        case 3: // await
        {
          auto s = pick([](slot_t & s) { return s.t && s.body >= 0 && !s.awaited; });
          if (!s) break;
          auto & b = B(s->body);
          auto & a = awaiters.emplace_back();
          a.body = b.id; b.exec = static_cast<int>(src.below(2)); b.may_run = true; ran++;
          bool own = src.flip();
          c.log("await slot ", s - slots, own ? " as rvalue" : "");
          auto form = static_cast<int>(src.below(3));
          if (own) { c.label("await_owned"); s->body = -1; s->moved_from = true; a.p.emplace(owner(a, std::move(*s->t), form, asio::executor_arg, exs[b.exec])); }
          else { s->awaited = true; a.slot = static_cast<int>(s - slots); a.p.emplace(awaiter(a, *s->t, form, asio::executor_arg, exs[b.exec])); }
          PBT_CHECK(c, b.starts == 1, "awaited task did not start");
          break;
        }
        case 4: // spawn
        {
          if constexpr (spawnable)
          {
            auto s = pick([](slot_t & s) { return s.t && s.body >= 0 && !s.awaited; });
            if (!s) break;
            auto & b = B(s->body);
            auto & sp = spawns.emplace_back();
            sp.body = b.id; b.exec = static_cast<int>(src.below(2)); b.may_run = true; ran++;
            c.label("spawn"); c.log("spawn slot ", s - slots);
            s->body = -1; s->moved_from = true;
            if (src.flip())
              cobalt::spawn(exs[b.exec], std::move(*s->t), asio::bind_cancellation_slot(sp.sig.slot(), spawn_handler{this, &sp}));
            else
              cobalt::spawn(b.exec ? ctx2 : e.ctx, std::move(*s->t), asio::bind_executor(exs[src.below(2)], asio::bind_cancellation_slot(sp.sig.slot(), spawn_handler{this, &sp})));
            sp.in_call = false;
            PBT_CHECK(c, sp.live >= 1);
          }
          break;
        }
        case 5: // move
        {
          auto s = pick([](slot_t & s) { return s.t && s.body >= 0 && !s.awaited; });
          auto d = pick([](slot_t & s) { return !s.awaited; });
          if (!s || !d || s == d) break;
          lifetime++; c.label("move"); c.log("move slot ", s - slots, " to ", d - slots);
          if (d->t)
          {
            if constexpr (std::is_move_assignable_v<Tk>) { c.label("move_assign"); *d->t = std::move(*s->t); dropped(*d); }
            else break;
          }
          else d->t.emplace(std::move(*s->t));
          d->body = s->body; d->moved_from = false; s->body = -1; s->moved_from = true;
          break;
        }
        case 6: // drop
        {
          auto s = pick([](slot_t & s) { return s.t && !s.awaited; });
          if (!s) break;
          lifetime++; c.label("drop"); c.log("drop slot ", s - slots);
          s->t.reset(); dropped(*s); s->body = -1; s->moved_from = false;
          break;
        }
        case 7: // cancel an awaiter
        {
          for (auto & a : awaiters) if (!a.done && !a.cancelled)
          {
            if (src.flip()) continue;
            a.cancelled = true; c.label("cancel_awaiter"); c.log("cancel the awaiter of body ", a.body);
            expect_cancel x(*this, a.body);
            a.p->cancel();
            x.done();
            break;
          }
          break;
        }
        case 8: // cancel a spawned task
        {
          for (auto & s : spawns) if (!s.calls && !s.cancelled)
          {
            if (src.flip()) continue;
            s.cancelled = true; c.label("cancel_spawned"); c.log("cancel spawned body ", s.body);
            expect_cancel x(*this, s.body, true);
            if (B(s.body).starts == 0) { for (int i = s.body; i >= 0; i = B(i).sub) B(i).unsure = true; }
            s.sig.emit(asio::cancellation_type::all);
            settle();
            x.done();
            break;
          }
          break;
        }
        case 9: // awaiting a task that is finished or moved from doesn't hang
        {
          auto s = pick([](slot_t & s) { return s.t && s.moved_from; });
          if (!s) break;
          c.label("await_moved_from");
          Outcome o; bool done = false;
          auto p = [&]() -> cobalt::promise<void> { AWAIT(*s->t, 1, o) done = true; }();
          PBT_CHECK(c, done && o.kind == Outcome::other, "awaiting a moved-from task gives " << o);
          break;
        }
      }
      for (auto & a : awaiters) if (a.done && a.slot >= 0) { auto & s = slots[a.slot]; if (s.awaited && s.body == a.body) { s.awaited = false; s.body = -1; } }
      if (!c.failed) check_all();
    }
    if (c.failed) return;
    if (src.chance(1, 3))
    {
      // tear everything down: operations drop their handlers, which destroys whatever awaits them
      c.label("teardown"); c.log("drop all operations");
      for (auto & s : slots) if (!s.awaited) s.t.reset();
      for (int r = 0; r < 100; r++)
      {
        bool any = false;
        for (std::size_t j = 0; j < gates.size(); j++) if (gates[j].waiting()) { any = true; gates[j].drop(); }
        if (!settle() && !any) break;
      }
      torn_down = true;
      check_all();
      for (auto & s : spawns) PBT_CHECK(c, s.live == 0, "handler of a spawned task leaked");
    }
    else
    {
      for (int r = 0; r < 200; r++)
      {
        bool any = false;
        for (std::size_t j = 0; j < gates.size(); j++) if (gates[j].waiting()) { any = true; auto & g = gates[j]; g.complete({}, g.id * 10 + 1, false); }
        if (!settle() && !any) break;
      }
      check_all();
      for (auto & a : awaiters) PBT_CHECK(c, a.done, "awaiter of body " << a.body << " never resumed");
      for (auto & s : spawns) PBT_CHECK(c, s.calls == 1, "handler of spawned body " << s.body << " called " << s.calls << " times");
      for (auto & s : spawns) PBT_CHECK(c, s.live == 0, "handler of a spawned task leaked");
      for (auto & b : bodies) if (b.starts) PBT_CHECK(c, b.ends == 1 && b.taken == 1, "body " << b.id << " ended " << b.ends << " times, outcome taken " << b.taken << " times");
    }
    for (auto & s : slots) { s.t.reset(); }
    for (auto & b : bodies) PBT_CHECK(c, b.frames == 0 && b.args == 0, "frame of body " << b.id << " leaked");
    awaiters.clear();
    if (lifetime && ran && bodies.size() >= 2) c.mark_nontrivial();
  }
};

template<typename T> void body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e;
    { model<T> m(src, c, e); m.run(); m.settle(); }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " object(s) never destroyed");
  Live::n = live0;
}

// tasks made from a noop, and tasks whose context goes away before they run
void noop_body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e;
    int calls = 0, got = -1; bool abandoned = src.flip(), started = false;
    {
      std::optional<asio::io_context> cx; cx.emplace();
      auto k = src.below(4);
      struct arg : Live {};
      auto h = [&calls, &got](std::exception_ptr ep, val v) { calls++; got = ep ? -2 : v.id; };
      auto hv = [&calls](std::exception_ptr ep) { calls++; if (ep) calls = 100; };
      auto lz = [](bool & st, arg, int k) -> cobalt::task<val> { st = true; co_return val(k); };
      auto lzv = [](bool & st, arg) -> cobalt::task<void> { st = true; co_return; };
      switch (k)
      {
        case 0: { cobalt::task<val> t = cobalt::noop<val>(7); cobalt::spawn(*cx, std::move(t), h); break; }
        case 1: { cobalt::task<void> t = cobalt::noop<void>(); cobalt::spawn(*cx, std::move(t), hv); break; }
        case 2: { cobalt::spawn(*cx, lz(started, arg{}, 7), h); break; }
        case 3: { cobalt::spawn(*cx, lzv(started, arg{}), hv); break; }
      }
      if (k >= 2) PBT_CHECK(c, calls == 0 && !started, "a spawned task ran inside spawn, outside of its context");
      auto n = src.below(4);
      for (std::uint32_t i = 0; i < n; i++) cx->poll_one();
      if (!abandoned)
      {
        cx->restart(); cx->poll();
        PBT_CHECK(c, calls == 1, "handler called " << calls << " times");
        if (k % 2 == 0) PBT_CHECK(c, got == 7);
      }
      else c.label("context_destroyed");
      cx.reset();
      PBT_CHECK(c, calls <= 1, "handler called while its context is destroyed or twice");
      if (k >= 2) c.mark_nontrivial();
      for (int r = 0; r < 2; r++) // awaiting a noop task
      {
        bool done = false;
        auto p = [&]() -> cobalt::promise<void>
        {
          cobalt::task<val> t = cobalt::noop<val>(9); cobalt::task<void> v = cobalt::noop<void>();
          if (src.flip()) { auto t2 = std::move(t); auto x = co_await t2; PBT_CHECK(c, x.id == 9); }
          else { auto x = co_await cobalt::as_result(t); PBT_CHECK(c, x && x->id == 9); }
          co_await v; done = true;
        }();
        PBT_CHECK(c, done, "await of a noop task suspends");
      }
    }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " object(s) never destroyed");
  Live::n = live0;
}

int main(int argc, char ** argv)
{
  const char * d = "3-20 generated operations (create nested task trees, await as l- or rvalue in three forms on one of two executors, spawn, move, assign over, drop, cancel, complete operations, run handlers), "
                   "ending in completion or teardown of all operations; non-trivial: two bodies, one of them run, and a move, drop or assignment";
  return pbt::run_main(argc, argv, "C02", {
    {"copyable", d, 600000, 4000000, body<val>},
    {"moveonly", d, 400000, 4000000, body<mo>},
    {"nodefault", d, 200000, 2000000, body<nodef>},
    {"void", d, 600000, 4000000, body<void>},
    {"noop_and_abandoned", "noop tasks and tasks spawned on a context that is run 0-3 handlers or to the end and then destroyed; non-trivial: a real coroutine", 20000, 200000, noop_body},
  });
}
