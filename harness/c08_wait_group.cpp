// C08: wait_group.
#include "branch.hpp"
#include <boost/cobalt/wait_group.hpp>
#include <boost/cobalt/with.hpp>
using namespace env;

struct wg_case
{
  using B = Branch<void>;
  Src & src; Ctx & c; Env & e; Clock clk;
  std::deque<Gate> gates; std::deque<B> all;
  std::vector<B *> members;                     // the model
  std::optional<cobalt::wait_group> wg;
  asio::cancellation_type ct_normal, ct_except;
  std::optional<cobalt::promise<void>> waiter;
  enum wk { w_wait, w_one, w_await, w_exit, w_exit_ep };
  struct { bool active = false; wk kind{}; std::vector<B *> of; int tick = 0; bool ready = false; } cur;
  int waits_done = 0, waits_blocked = 0; bool script_done = true, destroyed = false, cancelling = false;

  wg_case(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}
  ~wg_case()
  {
    for (auto & b : all) b.orphan = true;
    for (std::size_t k = 0; k < gates.size(); k++) gates[k].drop();
    waiter.reset(); wg.reset(); for (auto & b : all) b.p.reset(); e.settle();
    for (std::size_t k = 0; k < gates.size(); k++) gates[k].drop();
  }
  static asio::cancellation_type some_ct(std::uint32_t i)
  {
    using ct = asio::cancellation_type;
    const ct a[] = {ct::all, ct::terminal, ct::partial, ct::total};
    return a[i];
  }
  B & gen()
  {
    auto & b = all.emplace_back(c, e, clk, gates, static_cast<int>(all.size()), bk::pl);
    auto n = src.below(4);
    for (std::uint32_t i = 0; i < n; i++)
    {
      B::step_t s;
      s.reaction = static_cast<on_cancel>(src.below(3));
      s.ready = src.chance(1, 5); s.swallow = src.flip();
      b.script.push_back(s);
    }
    b.throws = src.chance(1, 3);
    return b;
  }
  void push()
  {
    auto & b = gen();
    c.log("push_back ", b.id);
    b.create();
    members.push_back(&b);
    wg->push_back(std::move(*b.p));
    b.p.reset();
  }
  void remove(B * b) { members.erase(std::find(members.begin(), members.end(), b)); }

  void wait_starts(wk k)
  {
    cur.active = true; cur.kind = k; cur.of = members; cur.tick = clk.tick(); cur.ready = satisfied();
    c.log("wait kind ", int(k), " of ", members.size(), cur.ready ? " (ready)" : "");
  }
  bool satisfied() const
  {
    if (cur.of.empty()) return true;
    std::size_t n = 0; for (auto b : cur.of) n += b->ended;
    return cur.kind == w_one ? n > 0 : n == cur.of.size();
  }
  void wait_ended(std::exception_ptr ep)
  {
    auto o = ep ? Outcome::from(ep) : Outcome::val(0);
    c.log("wait ends with ", o);
    PBT_CHECK(c, satisfied(), "wait completed before " << (cur.kind == w_one ? "a promise" : "every promise") << " has");
    waits_done++;
    if (!cur.ready) waits_blocked++;
    if (cur.kind == w_one)
    {
      if (cur.of.empty()) PBT_CHECK(c, !ep, "wait_one of an empty group failed");
      else
      {
        // the first to end, or any of those that already had
        B * first = nullptr; bool known = false;
        for (auto b : cur.of) if (b->ended)
        {
          if (b->produced[0].tick < cur.tick) { if (!known || b->produced[0].o == o) first = b; known = true; }
          else if (!known && (!first || b->produced[0].tick < first->produced[0].tick)) first = b;
        }
        PBT_CHECK(c, first != nullptr);
        if (first)
        {
          PBT_CHECK(c, first->produced[0].o == o, "wait_one reports " << o << ", but promise " << first->id << " ended first with " << first->produced[0].o);
          remove(first);
        }
        if (ep) c.label("wait_one_failed");
      }
    }
    else
    {
      PBT_CHECK(c, !ep, "wait failed");
      for (auto b : cur.of) remove(b);
    }
    cur.active = false;
    PBT_CHECK(c, wg->size() == members.size(), "size() is " << wg->size() << " after the wait, should be " << members.size());
  }
  cobalt::promise<void> run_waits(std::vector<wk> ks, bool destroy)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false);
    for (auto k : ks)
    {
      wait_starts(k);
      std::exception_ptr ep;
      try
      {
        switch (k)
        {
          case w_wait: co_await wg->wait(); break;
          case w_one: co_await wg->wait_one(); break;
          case w_await: co_await *wg; break;
          case w_exit: case w_exit_ep:
          {
            auto ct = k == w_exit ? ct_normal : ct_except;
            auto before = requests(); targets = waiting_members();
            auto aw = wg->await_exit(k == w_exit ? nullptr : std::make_exception_ptr(test_error(1)));
            if (ct != asio::cancellation_type::none) check_cancelled(before, ct, "await_exit"); else PBT_CHECK(c, requests() == before, "await_exit cancelled though it shouldn't");
            cur.ready = satisfied();
            co_await std::move(aw);
            break;
          }
        }
      }
      catch (...) { ep = std::current_exception(); }
      wait_ended(ep);
    }
    if (destroy) destroy_group();
    script_done = true;
  }
  std::vector<std::size_t> requests() const { std::vector<std::size_t> r; for (auto & g : gates) r.push_back(g.cancels.size()); return r; }
  // every operation a member waited for got exactly one request, unless something else completed it meanwhile
  std::vector<std::pair<Gate *, B *>> waiting_members()
  {
    std::vector<std::pair<Gate *, B *>> r;
    for (auto b : members) if (b->at && b->at->waiting()) r.emplace_back(b->at, b);
    return r;
  }
  std::vector<std::pair<Gate *, B *>> targets;
  void check_cancelled(const std::vector<std::size_t> & before, asio::cancellation_type ct, const char * how)
  {
    for (std::size_t i = 0; i < before.size(); i++)
    {
      auto & g = gates[i];
      bool target = false;
      for (auto & t : targets) if (t.first == &g) target = true;
      if (target)
      {
        PBT_CHECK(c, g.cancels.size() == before[i] + 1, how << ": operation " << i << " got " << g.cancels.size() - before[i] << " requests");
        if (!g.cancels.empty()) PBT_CHECK(c, (int(g.cancels.back()) & 7) == (int(ct) & 7), how << ": operation " << i << " got type " << int(g.cancels.back()) << " instead of " << int(ct));
      }
      else PBT_CHECK(c, g.cancels.size() == before[i], how << " cancelled operation " << i << " of no member");
    }
  }
  void destroy_group()
  {
    c.log("destroy group"); c.label("destroyed");
    auto run = waiting_members();
    for (auto & b : all) b.orphan = true;
    destroyed = true;
    wg.reset();
    for (auto & [g, b] : run) PBT_CHECK(c, !g->cancels.empty(), "the destroyed group left promise " << b->id << " uncancelled");
    members.clear();
  }
  void check()
  {
    for (auto & b : all) b.check();
    if (destroyed) return;
    PBT_CHECK(c, wg->size() == members.size(), "size() is " << wg->size() << ", should be " << members.size());
  }
  void quiet() // nothing is on its way
  {
    e.settle();
    if (cur.active) PBT_CHECK(c, !satisfied(), "the wait is over, but its awaiter wasn't resumed");
    check();
  }
  void complete_one()
  {
    if (gates.empty()) return;
    auto k = src.below(static_cast<std::uint32_t>(gates.size()));
    for (std::size_t j = 0; j < gates.size(); j++)
    {
      auto & g = gates[(k + j) % gates.size()];
      if (!g.waiting()) continue;
      bool posted = src.chance(1, 3);
      c.log("complete operation ", g.id, posted ? " (posted)" : "");
      g.complete({}, 100000 + g.id, posted);
      break;
    }
  }
  void run()
  {
    ct_normal = src.flip() ? asio::cancellation_type::none : some_ct(src.below(4));
    ct_except = src.chance(1, 4) ? asio::cancellation_type::none : some_ct(src.below(4));
    if (src.flip()) wg.emplace(ct_normal, ct_except);
    else { wg.emplace(); ct_normal = asio::cancellation_type::none; ct_except = asio::cancellation_type::all; }
    auto n = 2 + src.below(30);
    for (std::uint32_t i = 0; i < n && !c.failed && !destroyed; i++)
    {
      switch (src.weighted({8, 6, 3, 4, 2, 2, 1, 2, 1}))
      {
        case 0: push(); break;
        case 1: complete_one(); break;
        case 2: e.step(1 + src.below(3)); break;
        case 3:
          if (!script_done) break;
          {
            waiter.reset();
            std::vector<wk> ks(1 + src.below(3));
            for (auto & k : ks) k = static_cast<wk>(src.below(5));
            for (auto k : ks) if (k >= w_exit) c.label("await_exit"); else if (k == w_one) c.label("wait_one"); else c.label("wait");
            bool destroy = src.chance(1, 8);
            script_done = false;
            waiter.emplace(start_waits(std::move(ks), destroy));
          }
          break;
        case 4:
        {
          auto ct = some_ct(src.below(4));
          c.log("cancel group ", int(ct)); c.label("cancel");
          auto before = requests(); targets = waiting_members();
          bool w = cur.active;
          wg->cancel(ct);
          if (destroyed) break; // by the waiter
          if (!w) check_cancelled(before, ct, "cancel");
          else for (auto & [g, b] : targets) PBT_CHECK(c, !g->cancels.empty(), "cancel didn't reach promise " << b->id);
          break;
        }
        case 5:
        {
          std::size_t dead = 0; std::vector<B *> left;
          for (auto b : members)
          {
            bool waited = cur.active && std::find(cur.of.begin(), cur.of.end(), b) != cur.of.end();
            if (b->ended && !waited) dead++; else left.push_back(b);
          }
          if (cur.active && cur.kind == w_one) break; // positions matter
          auto r = wg->reap();
          c.log("reap ", r); c.label("reap");
          PBT_CHECK(c, r == dead, "reap() removed " << r << " promises, " << dead << " were done");
          members = left;
          break;
        }
        case 6:
          if (cur.active || !script_done) break;
          { auto tmp = std::move(*wg); if (src.flip()) wg.emplace(std::move(tmp)); else *wg = std::move(tmp); c.label("moved"); }
          break;
        case 7: if (waiter && cur.active) { auto ct = some_ct(src.below(4)); c.label("waiter_cancelled"); c.log("cancel waiter"); waiter->cancel(ct); } break;
        case 8: quiet(); break;
      }
      if (!c.failed) check();
    }
    if (c.failed) return;
    if (src.chance(1, 8))
    {
      e.settle(); check();
      c.label("teardown"); c.log("drop all operations");
      for (auto & b : all) b.orphan = true;
      for (std::size_t j = 0; j < gates.size(); j++) gates[j].drop();
      waiter.reset(); if (!destroyed) { destroyed = true; wg.reset(); }
      e.settle();
      for (auto & b : all) PBT_CHECK(c, b.frames == 0, "frame of promise " << b.id << " leaked");
      return;
    }
    if (!destroyed && src.chance(1, 3)) { quiet(); if (!cur.active && script_done) { destroy_group(); } }
    for (int r = 0; r < 200 && !c.failed; r++)
    {
      if (!destroyed) quiet(); else e.settle();
      bool any = false;
      for (std::size_t j = 0; j < gates.size() && !any; j++) if (gates[j].waiting()) { any = true; gates[j].complete({}, 100000 + gates[j].id); }
      if (!any) break;
    }
    PBT_CHECK(c, script_done, "a wait never completes");
    if (c.failed) return;
    if (!destroyed)
    {
      auto r = wg->reap();
      PBT_CHECK(c, r == members.size() && wg->size() == 0, "all promises are done, but reap() removed " << r << " of " << members.size());
      wg.reset();
    }
    for (auto & b : all) PBT_CHECK(c, b.frames == 0 && b.ended, "promise " << b.id << " never ended or leaked");
    waiter.reset();
    if (waits_blocked) c.mark_nontrivial();
  }
  // await_exit cancels before waiting: the operations it has to reach are those waited for now
  cobalt::promise<void> start_waits(std::vector<wk> ks, bool destroy)
  {
    return run_waits(std::move(ks), destroy);
  }
};

static void body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e;
    { wg_case m(src, c, e); m.run(); e.settle(); }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " object(s) never destroyed");
  Live::n = live0;
}

// with(wait_group, ...): leaves no promise running
static void with_body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e;
    {
      wg_case m(src, c, e);
      auto n = src.below(6);
      auto waits = src.below(3); bool body_throws = src.flip();
      auto ctn = src.flip() ? asio::cancellation_type::none : wg_case::some_ct(src.below(4));
      auto cte = src.chance(1, 4) ? asio::cancellation_type::none : wg_case::some_ct(src.below(4));
      int done = 0; bool body_done = false, left_failed = false; Outcome result; cobalt::wait_group * in = nullptr;
      std::vector<Branch<void> *> bs;
      auto inner = [&](cobalt::wait_group & g) -> cobalt::promise<void>
      {
        in = &g;
        co_await cobalt::this_coro::throw_if_cancelled(false);
        for (std::uint32_t i = 0; i < n; i++)
        {
          auto & b = m.gen(); b.create(); bs.push_back(&b);
          g.push_back(std::move(*b.p)); b.p.reset();
        }
        for (std::uint32_t i = 0; i < waits; i++) { try { co_await g.wait_one(); } catch (...) { if (src.flip()) { body_done = true; throw; } } }
        body_done = true;
        if (body_throws) throw test_error(7);
      };
      bool outer_done = false, all_ended = true; std::size_t asked = 0;
      auto outer = [&]() -> cobalt::promise<void>
      {
        co_await cobalt::this_coro::throw_if_cancelled(false);
        try { co_await cobalt::with(cobalt::wait_group(ctn, cte), inner); result = Outcome::val(0); }
        catch (...) { result = Outcome::from(std::current_exception()); left_failed = true; }
        for (auto b : bs) if (!b->ended) all_ended = false;
        outer_done = true;
      };
      auto p = outer();
      for (int r = 0; r < 200 && !outer_done && !c.failed; r++)
      {
        e.settle();
        if (outer_done) break;
        if (body_done) asked++;
        if (src.chance(1, 6) && !body_done) { c.log("group cancelled"); c.label("cancel"); in->cancel(); continue; }
        if (src.chance(1, 10)) { c.label("with_cancelled"); c.log("cancel with"); p.cancel(); continue; }
        bool any = false;
        auto k = src.below(16);
        for (std::size_t j = 0; j < m.gates.size() && !any; j++) { auto & g = m.gates[(j + k) % m.gates.size()]; if (g.waiting()) { any = true; g.complete({}, 100000 + g.id, src.chance(1, 3)); } }
        if (!any) { e.settle(); if (!outer_done) { PBT_CHECK(c, false, "with(wait_group) hangs"); } }
      }
      PBT_CHECK(c, outer_done, "with(wait_group) never completes");
      PBT_CHECK(c, all_ended, "with(wait_group) left promises running");
      if (outer_done && body_throws && !left_failed) PBT_CHECK(c, false, "the body's exception got lost");
      if (asked) c.mark_nontrivial();
      c.label(left_failed ? "failed" : "succeeded");
      done++;
    }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " object(s) never destroyed");
  Live::n = live0;
}

int main(int argc, char ** argv)
{
  const char * d = "2-32 actions (push_back of a scripted promise, completion of an operation, handler steps, waits of all forms in sequence, cancel, reap, move, cancellation of the waiter, destruction, teardown); "
                   "non-trivial: a wait had to suspend";
  return pbt::run_main(argc, argv, "C08", {
    {"group", d, 500000, 8000000, body},
    {"with", "with(wait_group, body): promises, waits, failure, cancellation; non-trivial: the exit had to wait", 200000, 3000000, with_body},
  });
}
