// race / left_race: one winner, the first to complete; the others stopped (or interrupted and intact); nothing lost.
#include "branch.hpp"
using namespace env;

struct record_t
{
  bool left; int form; asio::cancellation_type ct;
  bool done = false; std::size_t index = ~std::size_t(0); Outcome o; bool has_index = false;
};

template<typename T> struct model
{
  using B = Branch<T>;
  Src & src; Ctx & c; Env & e; Clock clk;
  std::deque<Gate> gates; std::deque<B> all;
  std::mt19937 rng;
  int racer_cancels = 0, decided_with_pending = 0, rounds_done = 0; bool dropped_any = false;
  std::vector<B *> br;                // branches of the current race
  std::optional<cobalt::promise<void>> racer;
  model(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e), rng(s.below(1000)) {}

  ~model() // only after a failure is anything left
  {
    for (auto & b : all) { b.orphan = true; if (b.sub) b.sub->orphan = true; }
    for (std::size_t k = 0; k < gates.size(); k++) gates[k].drop();
    racer.reset();
    for (auto & b : all) { b.p.reset(); b.t.reset(); b.g.reset(); if (b.sub) b.sub->p.reset(); }
    e.settle();
    for (std::size_t k = 0; k < gates.size(); k++) gates[k].drop();
  }
  void settle() { e.settle(); }

  B & gen(bk k)
  {
    auto & b = all.emplace_back(c, e, clk, gates, static_cast<int>(all.size()), k);
    auto n = src.below(k == bk::gl || k == bk::gr ? 5 : 3);
    if (k == bk::op || k == bk::nest) n = 2;
    if (k == bk::nl) n++;
    for (std::uint32_t i = 0; i < n; i++)
    {
      typename B::step_t s;
      s.reaction = static_cast<on_cancel>(src.below(3));
      s.ready = src.chance(1, 6); s.swallow = src.flip();
      if (k == bk::gl || k == bk::gr) s.gate = src.flip();
      b.script.push_back(s);
    }
    b.throws = src.chance(1, 4);
    b.create();
    return b;
  }

#define RACE(call)                                                                               \
  try                                                                                            \
  {                                                                                              \
    if (r.form == 1)                                                                             \
    {                                                                                            \
      auto res = co_await cobalt::as_result(call);                                               \
      if (res.has_error()) r.o = of_error(res.error()); else set(r, *res);                       \
    }                                                                                            \
    else if (r.form == 2)                                                                        \
    {                                                                                            \
      auto res = co_await cobalt::as_tuple(call);                                                \
      if (std::get<0>(res)) r.o = of_error(std::get<0>(res)); else set(r, std::get<1>(res));     \
    }                                                                                            \
    else { auto res = co_await call; set(r, res); }                                              \
  }                                                                                              \
  catch (...) { r.o = Outcome::from(std::current_exception()); }                                 \
  r.done = true;                                                                                 \
  for (auto b : br) { if (!is_lv(b->k) || rec_rvalue) b->orphan = true; b->decided_inner = true; }                            \
  c.log("race done: ", r.o, " index ", r.has_index ? static_cast<long>(r.index) : -1L)

  void set(record_t & r, std::size_t i) { r.index = i; r.has_index = true; r.o = Outcome::val(0); }
  template<typename ... X> void set(record_t & r, boost::variant2::variant<X...> & v) { r.index = v.index(); r.has_index = true; r.o = Outcome::val(res_id(v)); }
  template<typename X> void set(record_t & r, std::pair<std::size_t, X> & v) { r.index = v.first; r.has_index = true; r.o = Outcome::val(res_id(v.second)); }

  template<asio::cancellation_type Ct, bk ... K, std::size_t ... I> auto mk(std::integral_constant<int, 0>, std::index_sequence<I...>) { return cobalt::race<Ct>(rng, br[I]->template arg<K>()...); }
  template<asio::cancellation_type Ct, bk ... K, std::size_t ... I> auto mk(std::integral_constant<int, 1>, std::index_sequence<I...>) { return cobalt::left_race<Ct>(br[I]->template arg<K>()...); }

  template<bk ... K> cobalt::promise<void> variadic(record_t & r)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    using idx = std::make_index_sequence<sizeof...(K)>;
    constexpr auto all_ct = asio::cancellation_type::all, term = asio::cancellation_type::terminal;
    if (r.left) { if (r.ct == term) { RACE((mk<term, K...>(std::integral_constant<int, 1>{}, idx{}))); } else { RACE((mk<all_ct, K...>(std::integral_constant<int, 1>{}, idx{}))); } }
    else { if (r.ct == term) { RACE((mk<term, K...>(std::integral_constant<int, 0>{}, idx{}))); } else { RACE((mk<all_ct, K...>(std::integral_constant<int, 0>{}, idx{}))); } }
  }
  template<typename R> cobalt::promise<void> ranged(record_t & r, R & range, bool rvalue)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    if (rvalue)
    {
      if constexpr (std::is_move_constructible_v<typename R::value_type>)
      {
        if (r.left) { RACE(cobalt::left_race(std::move(range))); } else { RACE(cobalt::race(rng, std::move(range))); }
      }
    }
    else if (r.left) { RACE(cobalt::left_race(range)); } else { RACE(cobalt::race(rng, range)); }
  }

  // state of a race that runs
  int start = 0; std::size_t winner = ~std::size_t(0); bool any_ready = false; record_t rec; bool lvalue_op = false;

  bool awaited(std::size_t i) const // certainly awaited by the race
  {
    if (!any_ready) return true;
    if (rec.left) { for (std::size_t j = 0; j < br.size(); j++) if (br[j]->was_ready) return i <= j; }
    return false;
  }
  // the outcome the branch can contribute to this race
  const typename B::done_t * out(std::size_t i) const { auto & b = *br[i]; return b.available() ? &b.produced[b.taken] : nullptr; }
  bool decided() const
  {
    if (any_ready) return true;
    for (std::size_t i = 0; i < br.size(); i++) if (out(i)) return true;
    return false;
  }
  void observe()
  {
    if (c.failed || !racer) return;
    for (std::size_t i = 0; i < br.size(); i++)
    {
      auto & b = *br[i];
      b.check();
      if (racer_cancels) continue;
      if (b.k == bk::op) for (auto ct : b.op[0]->cancels) PBT_CHECK(c, ct == rec_ct, "race<" << static_cast<unsigned>(rec_ct) << "> cancelled operation " << b.op[0]->id << " with type " << static_cast<unsigned>(ct));
      if (b.sub) PBT_CHECK(c, b.sub->cancels() == 0, "race cancelled promise " << b.sub->id << " of the nested race, which is interruptible");
      if (is_lv(b.k) && !rec_rvalue) PBT_CHECK(c, b.cancels() == b.base_cancels, "race cancelled the interruptible branch " << b.id << " (" << bk_name(b.k) << ")");
      else if (!rec.done) PBT_CHECK(c, b.cancels() - b.base_cancels <= (b.k == bk::nest || b.k == bk::nl ? 3u : 1u), "race cancelled branch " << b.id << " more than once");
    }
    if (decided() && !rec.done)
    {
      decided_with_pending++;
      bool wait_needed = false;
      std::size_t win = ~std::size_t(0);
      if (!any_ready) { for (std::size_t i = 0; i < br.size(); i++) if (out(i) && (win == ~std::size_t(0) || out(i)->tick < out(win)->tick)) win = i; }
      for (std::size_t i = 0; i < br.size(); i++)
      {
        auto & b = *br[i];
        if (is_lv(b.k) && !rec_rvalue) continue;
        if (i == win || out(i)) continue;
        if (b.ended) continue;
        if (awaited(i)) { wait_needed = true; PBT_CHECK(c, !b.waiting_uncancelled(), "race is decided, but branch " << b.id << " (" << bk_name(b.k) << ") is waiting and was not cancelled"); }
        else if (any_ready) wait_needed = true; // unknown
      }
      PBT_CHECK(c, wait_needed, "race is decided and all its branches have ended, but it doesn't complete");
    }
    if (rec.done && !checked) { checked = true; verify(); }
    if (!decided() && !rec.done) return;
    if (rec.done) PBT_CHECK(c, decided_before_take, "race completed although no branch did");
  }
  bool checked = false, ambiguous = false, decided_before_take = true, rec_rvalue = false;

  void verify()
  {
    rounds_done++;
    // the winner
    std::size_t w = ~std::size_t(0);
    auto better = [&](std::size_t i) { return w == ~std::size_t(0) || out(i)->tick < out(w)->tick; };
    if (any_ready)
    {
      if (rec.left) { for (std::size_t i = 0; i < br.size(); i++) if (br[i]->was_ready) { w = i; break; } }
      else
      {
        // any of those that were ready; if the race doesn't tell, whichever matches
        for (std::size_t i = 0; i < br.size(); i++) if (br[i]->was_ready && out(i))
        {
          if (rec.has_index ? rec.index == i : out(i)->o == rec.o)
          {
            if (w != ~std::size_t(0)) ambiguous = true; // two branches failed with the same error
            else w = i;
          }
        }
      }
    }
    else
      for (std::size_t i = 0; i < br.size(); i++) if (out(i) && out(i)->tick > start && better(i)) w = i;
    PBT_CHECK(c, w != ~std::size_t(0), "race completed with " << rec.o << (rec.has_index ? " of branch at " + std::to_string(rec.index) : std::string()) << ", but no such branch had completed");
    if (w == ~std::size_t(0) || c.failed) { return; }
    PBT_CHECK(c, out(w) != nullptr);
    if (!out(w)) return;
    if (rec.has_index) PBT_CHECK(c, rec.index == w, "race reports index " << rec.index << " but branch " << w << " completed first");
    PBT_CHECK(c, rec.has_index == (out(w)->o.kind == Outcome::value), "race reports " << (rec.has_index ? "a value" : "an error") << " but the winner ended with " << out(w)->o);
    if (ambiguous) return;
    br[w]->took(rec.o, "race");
    winner = w;
    // nobody refers to a branch any more
    for (std::size_t i = 0; i < br.size(); i++)
    {
      auto & b = *br[i];
      if (i == w || !awaited(i)) continue;
      if (is_lv(b.k) && !rec_rvalue) continue;
      PBT_CHECK(c, !b.pending() || b.ended, "race completed while branch " << b.id << " (" << bk_name(b.k) << ") still runs");
    }
    c.label(any_ready ? "ready_at_start" : "completed_later");
    if (out(w) == nullptr && !rec.has_index) c.label("winner_failed");
  }

  asio::cancellation_type rec_ct{}; bool has_ct = true;
  template<typename F> void start_race(F && f, bool rvalue)
  {
    rec.left = src.flip(); rec.form = static_cast<int>(src.below(3)); rec.ct = src.chance(1, 4) ? asio::cancellation_type::terminal : asio::cancellation_type::all;
    rec.done = rec.has_index = false; rec.o = {}; checked = false; rec_rvalue = rvalue;
    any_ready = false; racer_cancels = 0; winner = ~std::size_t(0);
    for (auto b : br) { b->was_ready = b->ready_now(); any_ready |= b->was_ready; b->base_cancels = b->cancels(); }
    start = clk.tick(); rec_ct = has_ct ? rec.ct : asio::cancellation_type::all;
    c.log(rec.left ? "left_race" : "race", " of ", br.size(), any_ready ? ", some ready" : "");
    racer.emplace(f());
    if (any_ready && rec.left) { }
    observe();
  }

  void act(int max_ops)
  {
    auto n = src.below(static_cast<std::uint32_t>(max_ops));
    for (std::uint32_t i = 0; i < n && !c.failed; i++)
    {
      switch (src.weighted({6, 3, racer && !rec.done ? 1u : 0u}))
      {
        case 0:
        {
          if (gates.empty()) break;
          auto k = src.below(static_cast<std::uint32_t>(gates.size()));
          for (std::size_t j = 0; j < gates.size(); j++)
          {
            auto & g = gates[(k + j) % gates.size()];
            if (g.waiting())
            {
              bool posted = src.chance(1, 3);
              bool fail = false; for (auto & b : all) if ((b.op[0] == &g || b.op[1] == &g) && b.throws) fail = true;
              c.log("complete operation ", g.id, posted ? " (posted)" : "");
              if (fail) g.complete(asio::error::eof, 0, posted); else g.complete({}, 100000 + g.id, posted);
              break;
            }
          }
          break;
        }
        case 1: e.step(1 + src.below(3)); break;
        case 2: { c.label("race_cancelled"); c.log("cancel the race"); racer_cancels++; racer->cancel(); break; }
      }
      observe();
    }
  }
  void finish_all()
  {
    for (int r = 0; r < 100 && !c.failed; r++)
    {
      settle(); observe();
      bool any = false;
      for (std::size_t j = 0; j < gates.size(); j++) if (gates[j].waiting()) { any = true; gates[j].complete({}, 100000 + gates[j].id); observe(); }
      if (!any) { settle(); bool w = false; for (auto & g : gates) w |= g.waiting(); if (!w) break; }
    }
  }
  // operations of the branches of this race only
  void finish_race()
  {
    for (int r = 0; r < 100 && !c.failed && !rec.done; r++)
    {
      settle(); observe();
      for (auto b : br)
      {
        if (rec.done || c.failed) break;
        for (std::size_t j = 0; j < b->mine.size(); j++) if (b->mine[j]->waiting()) { b->mine[j]->complete({}, 100000 + b->mine[j]->id); observe(); break; }
      }
    }
    PBT_CHECK(c, rec.done, "race never completes");
  }
  void drain_rest(B & b)
  {
    // a result the nested race took (or may have taken) is its own
    if (b.sub) { if (!b.sub_won) drain_rest(*b.sub); return; }
    if (!is_lv(b.k) || b.owned) return;
    for (int q = 0; q < 30 && !c.failed && !(b.ended && !b.available()); q++)
    {
      auto d = b.drain();
      for (int r = 0; r < 50 && !d.ready(); r++)
      {
        settle();
        for (std::size_t j = 0; j < b.mine.size(); j++) if (b.mine[j]->waiting()) { b.mine[j]->complete({}, 100000 + b.mine[j]->id); break; }
      }
      PBT_CHECK(c, d.ready(), "branch " << b.id << " (" << bk_name(b.k) << ") hangs after the race");
      if (d.ready()) b.took(d.get(), "await after the race");
    }
  }
  bool teardown()
  {
    if (!src.chance(1, 8)) return false;
    settle(); observe();
    // like shutting down the context: everything pending is abandoned & nothing completes any more
    c.label("teardown"); c.log("drop all operations");
    for (auto & b : all) { b.orphan = true; if (b.sub) b.sub->orphan = true; }
    for (std::size_t j = 0; j < gates.size(); j++) gates[j].drop();
    settle();
    return true;
  }

  template<bk ... K> void run_variadic()
  {
    constexpr bk ks[] = {K...};
    auto rounds = 1 + src.below(3);
    std::vector<B *> keep(sizeof...(K), nullptr);
    for (std::uint32_t round = 0; round < rounds && !c.failed && !ambiguous; round++)
    {
      br.clear();
      for (std::size_t i = 0; i < sizeof...(K); i++)
      {
        auto b = keep[i];
        if (!b || !is_lv(ks[i]) || (b->ended && !b->available())) b = &gen(ks[i]);
        keep[i] = b; br.push_back(b);
      }
      racer.reset(); rec.done = false;
      act(4);
      start_race([&] { return variadic<K...>(rec); }, false);
      act(12);
      if (c.failed) break;
      if (round + 1 == rounds && teardown()) { racer.reset(); finish_dead(); return; }
      finish_race();
      if (rounds > 1) c.label("repeated");
    }
    wind_up();
  }
  void finish_dead()
  {
    for (auto & b : all) { b.p.reset(); b.t.reset(); b.g.reset(); if (b.sub) b.sub->p.reset(); }
    settle();
    for (std::size_t k = 0; k < gates.size(); k++) gates[k].drop();
    settle();
    for (auto & b : all) b.check(true);
    c.mark_nontrivial();
  }
  void wind_up()
  {
    if (c.failed) return;
    if (!ambiguous) for (auto & b : all) drain_rest(b);
    finish_all();
    for (auto & b : all) { b.p.reset(); b.t.reset(); b.g.reset(); if (b.sub) b.sub->p.reset(); }
    settle();
    for (auto & b : all) { PBT_CHECK(c, b.frames == 0, "frame of branch " << b.id << " leaked"); }
    racer.reset();
    if (rounds_done && decided_with_pending) c.mark_nontrivial();
    if (rounds_done > 1) c.mark_nontrivial();
  }

  // ranges: the objects move into a container for the race and back
  template<bk K, typename R> void run_ranged()
  {
    auto n = 1 + src.below(5);
    std::vector<B *> keep(n, nullptr);
    auto rounds = 1 + src.below(3);
    std::deque<R> ranges;
    for (std::uint32_t round = 0; round < rounds && !c.failed && !ambiguous; round++)
    {
      bool rv = src.chance(1, 3);
      br.clear();
      auto & range = ranges.emplace_back();
      for (std::size_t i = 0; i < n; i++)
      {
        auto b = keep[i];
        if (!b || b->owned || (b->ended && !b->available())) b = &gen(K);
        b->owned = rv;
        keep[i] = b; br.push_back(b);
      }
      racer.reset(); rec.done = false;
      act(4);
      for (auto b : br)
      {
        if constexpr (K == bk::pl) { range.push_back(std::move(*b->p)); b->p.reset(); }
        if constexpr (K == bk::tl) { range.push_back(std::move(*b->t)); b->t.reset(); }
        if constexpr (K == bk::gl) { range.push_back(std::move(*b->g)); b->g.reset(); }
      }
      start_race([&] { return ranged(rec, range, rv); }, rv);
      act(12);
      if (c.failed) break;
      if (round + 1 == rounds && teardown()) { racer.reset(); ranges.clear(); finish_dead(); return; }
      finish_race();
      if (!rv)
        for (std::size_t i = 0; i < n; i++)
        {
          if constexpr (K == bk::pl) br[i]->p.emplace(std::move(range[i]));
          if constexpr (K == bk::tl) br[i]->t.emplace(std::move(range[i]));
          if constexpr (K == bk::gl) br[i]->g.emplace(std::move(range[i]));
        }
      c.label(rv ? "rvalue_range" : "lvalue_range");
    }
    br.clear();
    ranges.clear();
    wind_up();
  }
  void run_empty()
  {
    std::vector<cobalt::promise<T>> v;
    bool threw = false;
    auto p = [&]() -> cobalt::promise<void>
    {
      try { if (src.flip()) co_await cobalt::left_race(v); else co_await cobalt::race(rng, v); } catch (std::exception &) { threw = true; }
    }();
    PBT_CHECK(c, threw, "race of an empty range does not throw");
  }
};

template<typename T, typename F> void guarded_body(Src & src, Ctx & c, F && f)
{
  auto live0 = Live::n;
  {
    Env e;
    { model<T> m(src, c, e); f(m); m.settle(); }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " object(s) never destroyed");
  Live::n = live0;
}
template<typename T> void variadic_body(Src & src, Ctx & c)
{
  guarded_body<T>(src, c, [&](model<T> & m)
  {
    using enum bk;
    switch (src.below(12))
    {
      case 0: m.template run_variadic<pl, pl, pl>(); break;
      case 1: m.template run_variadic<op, op, op, op>(); break;
      case 2: m.template run_variadic<tl, pr, op>(); break;
      case 3: m.template run_variadic<op, gl, tl>(); break;
      case 4: m.template run_variadic<pr, tr, gr, op>(); break;
      case 5: m.template run_variadic<nest, pl, op>(); break;
      case 6: m.template run_variadic<pl>(); break;
      case 7: m.template run_variadic<tl, tl>(); break;
      case 8: m.template run_variadic<gl, gl, pl, tl>(); break;
      case 9: m.template run_variadic<op, nest, pr>(); break;
      case 10: m.template run_variadic<pl, nl, op>(); break;
      case 11: m.template run_variadic<nl, nl>(); break;
    }
  });
}
template<typename V> void void_body(Src & src, Ctx & c)
{
  guarded_body<V>(src, c, [&](model<V> & m)
  {
    using enum bk;
    switch (src.below(6))
    {
      case 0: m.template run_variadic<pl, pl, pl>(); break;
      case 1: m.template run_variadic<tl, pr, tr>(); break;
      case 2: m.template run_variadic<pr, pr, pl, tl>(); break;
      case 3: m.template run_variadic<op, pl, tl>(); break; // mixed: a variant
      case 4: m.template run_variadic<tl>(); break;
      case 5: m.template run_variadic<pl, nest>(); break;
    }
  });
}
template<typename T> void ranged_body(Src & src, Ctx & c)
{
  guarded_body<T>(src, c, [&](model<T> & m)
  {
    switch (src.weighted({4, 4, 3, 1}))
    {
      case 0: m.template run_ranged<bk::pl, std::vector<cobalt::promise<T>>>(); break;
      case 1: m.template run_ranged<bk::tl, std::vector<cobalt::task<T>>>(); break;
      case 2: if constexpr (!std::is_void_v<T>) m.template run_ranged<bk::gl, std::vector<cobalt::generator<T>>>(); else m.template run_ranged<bk::pl, std::deque<cobalt::promise<T>>>(); break;
      case 3: m.run_empty(); break;
    }
  });
}

void suite0(Src & src, Ctx & c);
void suite1(Src & src, Ctx & c);
void suite2(Src & src, Ctx & c);
void suite3(Src & src, Ctx & c);
void suite4(Src & src, Ctx & c);
void suite5(Src & src, Ctx & c);
#if PBT_IN(0)
void suite0(Src & src, Ctx & c) { variadic_body<val>(src, c); }
#endif
#if PBT_IN(1)
void suite1(Src & src, Ctx & c) { variadic_body<mo>(src, c); }
#endif
#if PBT_IN(2)
void suite2(Src & src, Ctx & c) { void_body<void>(src, c); }
#endif
#if PBT_IN(3)
void suite3(Src & src, Ctx & c) { ranged_body<val>(src, c); }
#endif
#if PBT_IN(4)
void suite4(Src & src, Ctx & c) { ranged_body<mo>(src, c); }
#endif
#if PBT_IN(5)
void suite5(Src & src, Ctx & c) { ranged_body<void>(src, c); }
#endif

#if PBT_IN(0)
int main(int argc, char ** argv)
{
  const char * d = "1-3 races over 1-5 scripted branches (operations, promises, tasks, generators as l- and rvalues, nested races; ready, throwing, ignoring or postponing cancellation), completion order, cancellation of the race "
                   "and teardown generated; non-trivial: the race was decided while another branch still ran, or was repeated";
  return pbt::run_main(argc, argv, "C05", {
    {"variadic", d, 300000, 4000000, suite0},
    {"variadic_moveonly", d, 150000, 3000000, suite1},
    {"variadic_void", d, 200000, 3000000, suite2},
    {"ranged", d, 200000, 3000000, suite3},
    {"ranged_moveonly", d, 100000, 3000000, suite4},
    {"ranged_void", d, 200000, 3000000, suite5},
  });
}
#endif
