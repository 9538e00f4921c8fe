// gather and join: wait for all branches.  Shared by C06 and C07.
#pragma once
#include "branch.hpp"
using namespace env;

template<bool Join, typename T> struct all_of
{
  using B = Branch<T>;
  Src & src; Ctx & c; Env & e; Clock clk;
  std::deque<Gate> gates; std::deque<B> all;
  std::vector<B *> br;
  std::optional<cobalt::promise<void>> waiter;
  error_code stop_ec; Gate * stop = nullptr; int stop_tick = 0;
  // the combination that runs
  int form = 0; bool via_race = false, rvalue_range = false;
  bool done = false, failed = false, interrupted = false; Outcome error; std::vector<Outcome> results; int done_tick = 0;
  int start = 0, cancelled = 0, cancelled_tick = 0; bool any_running = false, verified = false;
  int rounds_done = 0; bool waited = false;

  all_of(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}
  ~all_of() // only after a failure is anything left
  {
    for (auto & b : all) { b.orphan = true; if (b.sub) b.sub->orphan = true; }
    for (std::size_t k = 0; k < gates.size(); k++) gates[k].drop();
    waiter.reset(); reset_all(); e.settle();
    for (std::size_t k = 0; k < gates.size(); k++) gates[k].drop();
  }
  void settle() { e.settle(); }
  bool lv(const B & b) const { return is_lv(b.k) && !rvalue_range; }

  B & gen(bk k)
  {
    auto & b = all.emplace_back(c, e, clk, gates, static_cast<int>(all.size()), k);
    auto n = src.below(k == bk::gl || k == bk::gr ? 5 : 3);
    if (k == bk::op || k == bk::nest) n = 2;
    if (k == bk::nl) n++;
    for (std::uint32_t i = 0; i < n; i++)
    {
      typename B::step_t s;
      s.reaction = static_cast<on_cancel>(src.below(3));
      s.ready = src.chance(1, 5); s.swallow = src.flip();
      if (k == bk::gl || k == bk::gr) s.gate = src.flip();
      b.script.push_back(s);
    }
    b.throws = src.chance(1, Join ? 5 : 3);
    b.create();
    return b;
  }

  template<bk ... K, std::size_t ... I> auto mk(std::index_sequence<I...>)
  {
    if constexpr (Join) return cobalt::join(br[I]->template arg<K>()...); else return cobalt::gather(br[I]->template arg<K>()...);
  }
  template<typename R> static auto mkr(R && r)
  {
    if constexpr (Join) return cobalt::join(std::forward<R>(r)); else return cobalt::gather(std::forward<R>(r));
  }

  // ---- what was reported
  template<typename X> void add(boost::system::result<X, std::exception_ptr> & r)
  {
    if (r.has_error()) results.push_back(Outcome::from(r.error()));
    else if constexpr (std::is_void_v<X>) results.push_back(Outcome::val(0));
    else results.push_back(Outcome::val(res_id(*r)));
  }
  template<typename X> void add(X & x) { results.push_back(Outcome::val(res_id(x))); }
  template<typename ... X> void set(std::tuple<X...> & t) { std::apply([&](auto & ... x) { (add(x), ...); }, t); }
  template<typename X, typename A> void set(std::vector<X, A> & v) { for (auto & x : v) add(x); }
  void set() { for (std::size_t i = 0; i < br.size(); i++) results.push_back(Outcome::val(0)); }
  void fail_with(std::exception_ptr ep) { failed = true; error = Outcome::from(ep); }
  template<std::size_t N, typename Tup> void from_tuple(Tup & t) // (exception_ptr, ...)
  {
    if constexpr (!requires { std::tuple_size<Tup>::value; }) { if (t) fail_with(t); else set(); }
    else if (std::get<0>(t)) fail_with(std::get<0>(t));
    else if constexpr (std::tuple_size_v<Tup> == 1) set();
    else if constexpr (std::tuple_size_v<Tup> == 2 && requires { set(std::get<1>(t)); }) set(std::get<1>(t));
    else std::apply([&](auto &, auto & ... x) { (add(x), ...); }, t); // gather's tuple is flattened
  }
  void finished()
  {
    done = true; done_tick = clk.tick();
    for (auto b : br) { if (!lv(*b)) b->orphan = true; if (b->sub) b->sub->orphan = false; }
    c.log(Join ? "join" : "gather", interrupted ? " was interrupted" : failed ? " failed" : " done");
  }
  template<std::size_t N, typename F> cobalt::promise<void> await_it(F f)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    try
    {
      if (via_race)
      {
        using res_t = decltype(f().operator co_await().await_resume());
        auto r = co_await cobalt::left_race(f(), *stop);
        if (r.index() == 1) interrupted = true;
        else if constexpr (std::is_void_v<res_t>) set();
        else set(boost::variant2::get<0>(r));
      }
      else if (form == 1)
      {
        auto r = co_await cobalt::as_result(f());
        if (r.has_error()) fail_with(r.error());
        else if constexpr (std::is_void_v<typename decltype(r)::value_type>) set();
        else set(*r);
      }
      else if (form == 2) { auto r = co_await cobalt::as_tuple(f()); from_tuple<N>(r); }
      else
      {
        using res_t = decltype(f().operator co_await().await_resume());
        if constexpr (std::is_void_v<res_t>) { co_await f(); set(); }
        else { auto r = co_await f(); set(r); }
      }
    }
    catch (...) { fail_with(std::current_exception()); }
    finished();
  }

  // ---- oracle
  const typename B::done_t * out(std::size_t i) const { auto & b = *br[i]; return b.available() ? &b.produced[b.taken] : nullptr; }
  bool all_out() const { for (std::size_t i = 0; i < br.size(); i++) if (!out(i)) return false; return true; }
  // the branch that failed first: one of those that had failed when it was awaited (they are awaited in order), or the earliest since
  std::size_t first_failure() const
  {
    std::size_t w = ~std::size_t(0);
    for (std::size_t i = 0; i < br.size(); i++) if (br[i]->was_ready && out(i) && out(i)->o.kind != Outcome::value) return i;
    for (std::size_t i = 0; i < br.size(); i++)
      if (out(i) && out(i)->o.kind != Outcome::value && (w == ~std::size_t(0) || out(i)->tick < out(w)->tick)) w = i;
    return w;
  }
  // a failed join has told the branch to end, so it isn't interrupted, but waited for
  bool was_told(std::size_t i) const
  {
    if (!Join) return false;
    for (std::size_t j = 0; j < br.size(); j++)
      if (j != i && out(j) && out(j)->o.kind != Outcome::value && (br[j]->was_ready || out(j)->tick < stop_tick)) return true;
    return false;
  }
  bool stopped_by_race() const { return via_race && stop && stop->completions && stop_tick && (!done || interrupted); }
  void observe()
  {
    if (c.failed || !waiter) return;
    bool stopping = cancelled || (Join && first_failure() != ~std::size_t(0)) || stopped_by_race();
    for (std::size_t i = 0; i < br.size(); i++)
    {
      auto & b = *br[i];
      b.check();
      if (!stopping && !done && b.k != bk::nest && b.k != bk::nl) PBT_CHECK(c, b.cancels() == b.base_cancels, "branch " << b.id << " (" << bk_name(b.k) << ") was cancelled although nobody asked for it");
      if (stopped_by_race() && !verified && !cancelled && first_failure() == ~std::size_t(0))
      {
        if (lv(b)) PBT_CHECK(c, b.cancels() == b.base_cancels, "interruption cancelled the interruptible branch " << b.id << " (" << bk_name(b.k) << ")");
      }
      if (!done && stopping && !out(i) && !(stopped_by_race() && lv(b)))
        PBT_CHECK(c, !b.waiting_uncancelled(), "branch " << b.id << " (" << bk_name(b.k) << ") still waits and wasn't cancelled");
    }
    if (!done)
    {
      bool over = true; // nothing left to wait for
      for (std::size_t i = 0; i < br.size(); i++) if (!out(i) && !(stopped_by_race() && lv(*br[i]) && !was_told(i)) && !(stopped_by_race() && br[i]->ended)) over = false;
      if (via_race && stop->waiting() && !stop->cancels.empty()) over = false; // the stop operation ignores its cancellation
      if (via_race && stop->completions && !stop_tick) over = false; // its completion is on its way
      PBT_CHECK(c, !over, (Join ? "join" : "gather") << " doesn't complete although all branches have");
      if (!over) waited = true;
    }
    else if (!verified) { verified = true; verify(); }
  }
  void verify()
  {
    rounds_done++;
    if (via_race && failed && stop_ec)  // the operation's failure won
      for (std::size_t i = 0; i < br.size(); i++) if (!out(i) || out(i)->tick > stop_tick) interrupted = true;
    if (interrupted)
    {
      c.label("interrupted");
      PBT_CHECK(c, stop_tick != 0, "race reports the other operation, which never completed");
      for (std::size_t i = 0; i < br.size(); i++) if (!lv(*br[i])) PBT_CHECK(c, out(i) || !br[i]->pending() || br[i]->ended, "interrupted " << (Join ? "join" : "gather") << " left branch " << i << " running");
      // results it had collected until then are gone with it
      std::vector<bool> told;
      for (std::size_t i = 0; i < br.size(); i++) told.push_back(was_told(i));
      for (std::size_t i = 0; i < br.size(); i++) if (out(i) && (out(i)->tick < stop_tick || told[i])) { br[i]->taken++; if (br[i]->sub && br[i]->sub_won) br[i]->sub->taken++; }
      return;
    }
    for (std::size_t i = 0; i < br.size(); i++)
      PBT_CHECK(c, out(i) != nullptr, (Join ? "join" : "gather") << " completed, but branch " << i << " (" << bk_name(br[i]->k) << ") has not");
    if (c.failed) return;
    auto f = first_failure();
    if (Join)
    {
      PBT_CHECK(c, failed == (f != ~std::size_t(0)), "join " << (failed ? "failed with " + error.str() + " but no branch did" : "succeeded although branch " + std::to_string(f) + " failed"));
      if (c.failed) return;
      if (failed)
      {
        PBT_CHECK(c, error == out(f)->o, "join reports " << error << " but branch " << f << " failed first, with " << out(f)->o);
        c.label("failed");
        for (std::size_t i = 0; i < br.size(); i++) { if (br[i]->sub && br[i]->sub_won) br[i]->sub->taken++; br[i]->taken++; }
        return;
      }
    }
    else PBT_CHECK(c, !failed, "gather failed with " << error);
    PBT_CHECK(c, failed || results.size() == br.size(), results.size() << " results for " << br.size() << " branches");
    if (c.failed) return;
    for (std::size_t i = 0; i < br.size(); i++)
    {
      if (!Join && out(i)->o.kind != Outcome::value) c.label("failed");
      br[i]->took(results[i], Join ? "join" : "gather");
    }
    c.label("succeeded");
  }

  template<typename F> void start_it(F && f)
  {
    done = failed = interrupted = verified = false; error = {}; results.clear(); cancelled = 0; stop_tick = 0; stop_ec = {};
    form = static_cast<int>(src.below(3));
    stop = &gates.emplace_back(e, static_cast<int>(gates.size()));
    stop->reaction = static_cast<on_cancel>(src.below(3));
    stop->on_complete = [this](error_code ec, int) { stop_ec = ec; if (!stop_tick) stop_tick = clk.tick(); };
    for (auto b : br) { b->was_ready = b->ready_now(); b->base_cancels = b->cancels(); }
    start = clk.tick();
    c.log(Join ? "join" : "gather", " of ", br.size(), via_race ? " in a race" : "");
    waiter.emplace(f());
    observe();
  }
  void complete(Gate & g, bool posted)
  {
    bool fail = false;
    for (auto & b : all) if ((b.op[0] == &g || b.op[1] == &g) && b.throws) fail = true;
    if (fail) g.complete(asio::error::eof, 0, posted); else g.complete({}, 100000 + g.id, posted);
  }
  void act(std::uint32_t max_ops)
  {
    auto n = src.below(max_ops);
    for (std::uint32_t i = 0; i < n && !c.failed; i++)
    {
      switch (src.weighted({6, 3, waiter && !done ? 1u : 0u}))
      {
        case 0:
        {
          if (gates.empty()) break;
          auto k = src.below(static_cast<std::uint32_t>(gates.size()));
          for (std::size_t j = 0; j < gates.size(); j++)
          {
            auto & g = gates[(k + j) % gates.size()];
            if (!g.waiting()) continue;
            if (&g == stop && src.flip()) continue;
            bool posted = src.chance(1, 3);
            c.log("complete operation ", g.id, posted ? " (posted)" : "", &g == stop ? " (stop)" : "");
            complete(g, posted);
            break;
          }
          break;
        }
        case 1: e.step(1 + src.below(3)); break;
        case 2: c.label("cancelled"); c.log("cancel"); cancelled++; waiter->cancel(); break;
      }
      observe();
    }
  }
  void complete_all_of(B & b) { for (std::size_t j = 0; j < b.mine.size(); j++) if (b.mine[j]->waiting()) { c.log("complete operation ", b.mine[j]->id); complete(*b.mine[j], false); observe(); if (b.sub) complete_all_of(*b.sub); return; } if (b.sub) complete_all_of(*b.sub); }
  void finish_it()
  {
    for (int r = 0; r < 100 && !c.failed && !done; r++)
    {
      settle(); observe();
      for (auto b : br) { if (done || c.failed) break; complete_all_of(*b); }
      // a stop operation that was cancelled but ignores it
      if (!done && via_race && stop->waiting() && !stop->cancels.empty()) { complete(*stop, false); observe(); }
      if (!done && via_race && r > 50 && stop->waiting()) { complete(*stop, false); observe(); }
    }
    PBT_CHECK(c, done, (Join ? "join" : "gather") << " never completes");
  }
  void drain_rest(B & b)
  {
    if (b.sub) { if (!b.sub_won) drain_rest(*b.sub); return; }
    if (!is_lv(b.k) || b.owned) return;
    for (int q = 0; q < 30 && !c.failed && !(b.ended && !b.available()); q++)
    {
      auto d = b.drain();
      for (int r = 0; r < 50 && !d.ready(); r++)
      {
        settle();
        for (std::size_t j = 0; j < b.mine.size(); j++) if (b.mine[j]->waiting()) { b.mine[j]->complete({}, 100000 + b.mine[j]->id); break; }
      }
      PBT_CHECK(c, d.ready(), "branch " << b.id << " (" << bk_name(b.k) << ") hangs afterwards");
      if (d.ready()) b.took(d.get(), "await afterwards");
    }
  }
  void reset_all() { for (auto & b : all) { b.p.reset(); b.t.reset(); b.g.reset(); if (b.sub) b.sub->p.reset(); } }
  bool teardown()
  {
    if (!src.chance(1, 8)) return false;
    settle(); observe();
    c.label("teardown"); c.log("drop all operations");
    for (auto & b : all) { b.orphan = true; if (b.sub) b.sub->orphan = true; }
    for (std::size_t j = 0; j < gates.size(); j++) gates[j].drop();
    settle();
    return true;
  }
  void finish_dead()
  {
    reset_all(); settle();
    for (std::size_t k = 0; k < gates.size(); k++) gates[k].drop();
    settle();
    for (auto & b : all) b.check(true);
    c.mark_nontrivial();
  }
  void wind_up()
  {
    if (c.failed) return;
    for (auto & b : all) { drain_rest(b); b.orphan = true; if (b.sub) b.sub->orphan = true; }
    for (int r = 0; r < 100 && !c.failed; r++)
    {
      settle();
      bool any = false;
      for (std::size_t j = 0; j < gates.size(); j++) if (gates[j].waiting()) { any = true; complete(gates[j], false); }
      settle();
      for (auto & g : gates) any |= g.waiting();
      if (!any) break;
    }
    reset_all(); settle();
    for (auto & b : all) PBT_CHECK(c, b.frames == 0, "frame of branch " << b.id << " leaked");
    waiter.reset();
    if (rounds_done && waited) c.mark_nontrivial();
  }
  template<bk ... K> void run_variadic()
  {
    constexpr bk ks[] = {K...};
    auto rounds = 1 + src.below(3);
    std::vector<B *> keep(sizeof...(K), nullptr);
    for (std::uint32_t round = 0; round < rounds && !c.failed; round++)
    {
      br.clear();
      for (std::size_t i = 0; i < sizeof...(K); i++)
      {
        auto b = keep[i];
        if (!b || !is_lv(ks[i]) || (b->ended && !b->available())) b = &gen(ks[i]);
        keep[i] = b; br.push_back(b);
      }
      waiter.reset(); via_race = src.chance(1, 4);
      act(5);
      start_it([&] { return await_it<sizeof...(K)>([this] { return mk<K...>(std::make_index_sequence<sizeof...(K)>{}); }); });
      act(14);
      if (c.failed) break;
      if (round + 1 == rounds && teardown()) { waiter.reset(); finish_dead(); return; }
      finish_it();
      if (rounds > 1) c.label("repeated");
    }
    wind_up();
  }
  template<bk K, typename R> void run_ranged()
  {
    auto n = src.below(6);
    if (n == 0) n = 1 + src.below(12);
    std::vector<B *> keep(n, nullptr);
    auto rounds = 1 + src.below(3);
    std::deque<R> ranges;
    for (std::uint32_t round = 0; round < rounds && !c.failed; round++)
    {
      bool rv = src.chance(1, 3);
      br.clear();
      auto & range = ranges.emplace_back();
      for (std::size_t i = 0; i < n; i++)
      {
        auto b = keep[i];
        if (!b || b->owned || (b->ended && !b->available())) b = &gen(K);
        b->owned = rv;
        keep[i] = b; br.push_back(b);
      }
      waiter.reset(); via_race = src.chance(1, 4); rvalue_range = rv;
      act(5);
      for (auto b : br)
      {
        if constexpr (K == bk::pl) { range.push_back(std::move(*b->p)); b->p.reset(); }
        if constexpr (K == bk::tl) { range.push_back(std::move(*b->t)); b->t.reset(); }
        if constexpr (K == bk::gl) { range.push_back(std::move(*b->g)); b->g.reset(); }
      }
      start_it([&] { if (rv) return await_it<0>([&range] { return mkr(std::move(range)); }); else return await_it<0>([&range] { return mkr(range); }); });
      act(14);
      if (c.failed) break;
      if (round + 1 == rounds && teardown()) { waiter.reset(); ranges.clear(); finish_dead(); return; }
      finish_it();
      if (!rv)
        for (std::size_t i = 0; i < n; i++)
        {
          if constexpr (K == bk::pl) br[i]->p.emplace(std::move(range[i]));
          if constexpr (K == bk::tl) br[i]->t.emplace(std::move(range[i]));
          if constexpr (K == bk::gl) br[i]->g.emplace(std::move(range[i]));
        }
      c.label(rv ? "rvalue_range" : "lvalue_range");
    }
    br.clear(); ranges.clear();
    wind_up();
  }
  void run_empty()
  {
    std::vector<cobalt::promise<T>> v;
    form = static_cast<int>(src.below(3));
    waiter.emplace(await_it<0>([&v] { return mkr(v); }));
    settle();
    PBT_CHECK(c, done, "empty range: never completes"); // with nothing, or (documented) an exception
    PBT_CHECK(c, results.empty());
    c.label("empty");
  }
  // a range of operations, which must be tried once each
  void run_ops()
  {
    auto n = 1 + src.below(5);
    struct ref_op final : cobalt::op<error_code, int>
    {
      Gate * g; explicit ref_op(Gate * g) : g(g) {}
      void ready(cobalt::handler<error_code, int> h) override { g->ready(h); }
      void initiate(cobalt::completion_handler<error_code, int> h) override { g->initiate(std::move(h)); }
    };
    std::vector<ref_op> ops;
    for (std::uint32_t i = 0; i < n; i++) { br.push_back(&gen(bk::op)); ops.emplace_back(br.back()->op[0]); }
    via_race = src.chance(1, 4);
    start_it([&] { return await_it<0>([&ops] { return mkr(ops); }); });
    act(10);
    if (!c.failed) finish_it();
    for (auto b : br) PBT_CHECK(c, b->op[0]->ready_calls == 1, "operation was tried " << b->op[0]->ready_calls << " times");
    c.label("range_of_operations");
    wind_up();
  }
};

template<typename M, typename F> void all_of_body(Src & src, Ctx & c, F && f)
{
  auto live0 = Live::n;
  {
    Env e;
    { M m(src, c, e); f(m); m.settle(); }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " object(s) never destroyed");
  Live::n = live0;
}
template<bool Join, typename T> void all_variadic(Src & src, Ctx & c)
{
  all_of_body<all_of<Join, T>>(src, c, [&](auto & m)
  {
    using enum bk;
    switch (src.below(10))
    {
      case 0: m.template run_variadic<pl, pl, pl>(); break;
      case 1: m.template run_variadic<op, op, op, op>(); break;
      case 2: m.template run_variadic<tl, pr, op>(); break;
      case 3: m.template run_variadic<op, gl, tl>(); break;
      case 4: m.template run_variadic<pr, tr, gr, op>(); break;
      case 5: m.template run_variadic<nest, pl, op>(); break;
      case 6: m.template run_variadic<pl>(); break;
      case 7: m.template run_variadic<tl, tl>(); break;
      case 8: m.template run_variadic<gl, gl, pl, tl>(); break;
      case 9: m.template run_variadic<nl, pr, op, pl>(); break;
    }
  });
}
template<bool Join> void all_void(Src & src, Ctx & c)
{
  all_of_body<all_of<Join, void>>(src, c, [&](auto & m)
  {
    using enum bk;
    switch (src.below(6))
    {
      case 0: m.template run_variadic<pl, pl, pl>(); break;
      case 1: m.template run_variadic<tl, pr, tr>(); break;
      case 2: m.template run_variadic<pr, pr, pl, tl>(); break;
      case 3: m.template run_variadic<op, pl, tl>(); break; // mixed with values
      case 4: m.template run_variadic<tl>(); break;
      case 5: m.template run_variadic<pl, nest>(); break;
    }
  });
}
template<bool Join, typename T> void all_ranged(Src & src, Ctx & c)
{
  all_of_body<all_of<Join, T>>(src, c, [&](auto & m)
  {
    switch (src.weighted({10, 10, 10, 10, 1}))
    {
      case 4: m.run_empty(); break;
      case 0: m.template run_ranged<bk::pl, std::vector<cobalt::promise<T>>>(); break;
      case 1: m.template run_ranged<bk::tl, std::vector<cobalt::task<T>>>(); break;
      case 2: if constexpr (!std::is_void_v<T>) m.template run_ranged<bk::gl, std::vector<cobalt::generator<T>>>(); else m.template run_ranged<bk::pl, std::deque<cobalt::promise<T>>>(); break;
      case 3: m.run_ops(); break;
    }
  });
}
constexpr bool Join = ALL_JOIN;
void suite0(Src & src, Ctx & c);
void suite1(Src & src, Ctx & c);
void suite2(Src & src, Ctx & c);
void suite3(Src & src, Ctx & c);
void suite4(Src & src, Ctx & c);
void suite5(Src & src, Ctx & c);
#if PBT_IN(0)
void suite0(Src & src, Ctx & c) { all_variadic<Join, val>(src, c); }
#endif
#if PBT_IN(1)
void suite1(Src & src, Ctx & c) { all_variadic<Join, mo>(src, c); }
#endif
#if PBT_IN(2)
void suite2(Src & src, Ctx & c) { all_void<Join>(src, c); }
#endif
#if PBT_IN(3)
void suite3(Src & src, Ctx & c) { all_ranged<Join, val>(src, c); }
#endif
#if PBT_IN(4)
void suite4(Src & src, Ctx & c) { all_ranged<Join, mo>(src, c); }
#endif
#if PBT_IN(5)
void suite5(Src & src, Ctx & c) { all_ranged<Join, void>(src, c); }
#endif

#if PBT_IN(0)
int all_main(int argc, char ** argv, const char * id)
{
  const char * d = "1-3 combinations of 1-12 scripted branches (operations, promises, tasks, generators as l- and rvalues, nested races; ready, failing, ignoring or postponing cancellation), completion order, cancellation, "
                   "interruption by an enclosing race and teardown generated; non-trivial: the combination had to wait for a branch (or was torn down)";
  return pbt::run_main(argc, argv, id, {
    {"variadic", d, 300000, 4000000, suite0},
    {"variadic_moveonly", d, 150000, 3000000, suite1},
    {"variadic_void", d, 200000, 3000000, suite2},
    {"ranged", d, 200000, 3000000, suite3},
    {"ranged_moveonly", d, 150000, 3000000, suite4},
    {"ranged_void", d, 150000, 3000000, suite5},
  });
}
#endif
