// Scripted branches for race, gather and join: operations, promises, tasks, generators (as l- and rvalues) and nested races.
#pragma once
#include "gate.hpp"
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <random>

namespace env
{
using pbt::Src; using pbt::Ctx;
enum class bk { op, pl, pr, tl, tr, gl, gr, nest, nl }; // nest: left_race(op, op); nl: left_race(promise&, op)
constexpr bool is_lv(bk k) { return k == bk::pl || k == bk::tl || k == bk::gl; }   // interruptible and reusable
constexpr const char * bk_name(bk k)
{
  constexpr const char * n[] = {"operation", "promise&", "promise", "task&", "task", "generator&", "generator", "nested race", "nested race with promise&"};
  return n[static_cast<int>(k)];
}

inline int res_id(boost::variant2::monostate) { return 0; }
inline int res_id(int i) { return i; }
template<typename X> requires requires (const X & x) { {x.id} -> std::convertible_to<int>; } int res_id(const X & x) { return x.id; }
template<typename ... X> int res_id(const boost::variant2::variant<X...> & v) { return boost::variant2::visit([](auto & x) { return res_id(x); }, v); }

template<typename T> struct Branch
{
  using G = std::conditional_t<std::is_void_v<T>, val, T>; // what generators yield
  struct step_t { bool gate = true, ready = false, swallow = false; on_cancel reaction = on_cancel::complete_inline; };
  Ctx & c; Env & e; Clock & clk; std::deque<Gate> & gates;
  int id; bk k;
  std::vector<step_t> script; bool throws = false;
  std::optional<cobalt::promise<T>> p; std::optional<cobalt::task<T>> t; std::optional<cobalt::generator<G>> g;
  Gate * op[2] = {nullptr, nullptr};
  // observed
  int starts = 0, frames = 0; bool ended = false, state_cancelled = false;
  Gate * at = nullptr;
  std::vector<Gate *> mine;
  struct done_t { int tick; Outcome o; };
  std::vector<done_t> produced; std::size_t taken = 0;
  int op_done = 0; Outcome op_first;
  std::unique_ptr<Branch> sub; bool sub_won = false, decided_inner = false; // nl
  std::function<void(Outcome)> on_note;
  std::size_t base_cancels = 0; // at the start of the current combination
  bool was_ready = false, owned = false;
  bool orphan = false; // nobody can receive an exception any more (see KNOWN_FINDINGS of C01), so don't throw one

  Branch(Ctx & c, Env & e, Clock & clk, std::deque<Gate> & gates, int id, bk k) : c(c), e(e), clk(clk), gates(gates), id(id), k(k) {}
  Branch(const Branch &) = delete;

  struct guard : Live { Branch & b; explicit guard(Branch & b) : b(b) { b.frames++; b.starts++; } ~guard() { b.frames--; } };

  void note(Outcome o, bool end) { if (on_note) on_note(o); produced.push_back({clk.tick(), o}); ended = end; c.log("branch ", id, " (", bk_name(k), ") ", end ? "ends with " : "yields ", o); }
  Gate & gate(const step_t & s)
  {
    auto & gt = gates.emplace_back(e, static_cast<int>(gates.size()));
    gt.reaction = s.reaction; gt.immediate_ready = s.ready; gt.imm_val = 100000 + gt.id;
    mine.push_back(&gt);
    return gt;
  }
  // one awaited operation of a body: true if it went through, false if cancelled and swallowed
#define BRANCH_STEP(s)                                                                                            \
    auto & gt = gate(s); at = &gt; bool was = state_cancelled;                                                    \
    try                                                                                                           \
    {                                                                                                             \
      int v = co_await gt;                                                                                        \
      PBT_CHECK(c, v == 100000 + gt.id, "branch " << id << " got another operation's value");                     \
      PBT_CHECK(c, !was, "branch " << id << " awaited an operation after it was cancelled, which must throw");    \
    }                                                                                                             \
    catch (boost::system::system_error & se)                                                                      \
    {                                                                                                             \
      PBT_CHECK(c, se.code() == asio::error::operation_aborted, "unexpected error " << se.code().message());      \
      state_cancelled = true;                                                                                     \
      at = nullptr;                                                                                               \
      if (!s.swallow && !orphan) { note({Outcome::aborted, 0}, true); throw; }                                               \
    }                                                                                                             \
    at = nullptr;                                                                                                 \
    PBT_CHECK(c, frames == 1 && starts == 1 && !ended)

  template<typename Coro> Coro body()
  {
    guard g_(*this);
    for (auto & s : script) { BRANCH_STEP(s); if ((co_await cobalt::this_coro::cancelled) != asio::cancellation_type::none) state_cancelled = true; }
    if (throws && !orphan) { note(Outcome::err(id), true); throw test_error(id); }
    if constexpr (std::is_void_v<T>) { note(Outcome::val(0), true); co_return; }
    else { T r(id); note(Outcome::val(id), true); co_return r; }
  }
  cobalt::generator<G> gbody()
  {
    guard g_(*this);
    int n = 0;
    for (auto & s : script)
    {
      if (s.gate) { BRANCH_STEP(s); if ((co_await cobalt::this_coro::cancelled) != asio::cancellation_type::none) state_cancelled = true; continue; }
      int v = id * 100 + ++n + 1000000;
      note(Outcome::val(v), false);
      co_yield G(v);
    }
    if (throws && !orphan) { note(Outcome::err(id), true); throw test_error(id); }
    note(Outcome::val(id), true);
    co_return G(id);
  }
  void create()
  {
    switch (k)
    {
      case bk::op: case bk::nest:
        for (int i = 0; i < (k == bk::op ? 1 : 2); i++)
        {
          op[i] = &gate(script[static_cast<std::size_t>(i) % script.size()]);
          if (k == bk::nest) op[i]->immediate_ready = false;
          op[i]->on_complete = [this](error_code ec, int v)
          {
            auto o = ec ? of_error(ec) : Outcome::val(v);
            if (!op_done++) op_first = o;
            if (op_done == (k == bk::op ? 1 : 2)) note(op_first, true);
          };
        }
        break;
      case bk::nl:
        op[0] = &gate(script[0]);
        op[0]->immediate_ready = false;
        op[0]->on_complete = [this](error_code ec, int v)
        {
          auto o = ec ? of_error(ec) : Outcome::val(v);
          if (!decided_inner) { decided_inner = true; op_first = o; }
          note(op_first, true);
        };
        sub = std::make_unique<Branch>(c, e, clk, gates, id + 1000, bk::pl);
        sub->script = script; sub->throws = throws;
        sub->on_note = [this](Outcome o)
        {
          if (decided_inner) return;
          decided_inner = sub_won = true; op_first = o;
          if (!op[0]->initiations) return note(o, true);
          // ends with the promise's outcome once its operation has
        };
        sub->create();
        break;
      case bk::pl: case bk::pr: p.emplace(body<cobalt::promise<T>>()); break;
      case bk::tl: case bk::tr: t.emplace(body<cobalt::task<T>>()); break;
      case bk::gl: case bk::gr: g.emplace(gbody()); break;
    }
  }
  template<bk K> decltype(auto) arg()
  {
    if constexpr (K == bk::op) return (*op[0]);
    else if constexpr (K == bk::pl) return (*p);
    else if constexpr (K == bk::pr) return std::move(*p);
    else if constexpr (K == bk::tl) return (*t);
    else if constexpr (K == bk::tr) return std::move(*t);
    else if constexpr (K == bk::gl) return (*g);
    else if constexpr (K == bk::gr) return std::move(*g);
    else if constexpr (K == bk::nl) return cobalt::left_race(*sub->p, *op[0]);
    else return cobalt::left_race(*op[0], *op[1]);
  }
  bool available() const { return produced.size() > taken; }
  bool sync() const { for (auto & s : script) if (!s.ready || !s.gate) return false; return true; }
  // completes without suspending when awaited now
  bool ready_now() const
  {
    switch (k)
    {
      case bk::op: return op[0]->immediate_ready;
      case bk::nest: return false;
      case bk::nl: return sub->available();
      case bk::tl: case bk::tr: return available() || (!starts && sync());
      default: return available();
    }
  }
  bool pending() const { return at ? at->waiting() : (op[0] && op[0]->waiting()) || (op[1] && op[1]->waiting()); }
  std::size_t cancels() const { std::size_t n = 0; for (auto g : mine) n += g->cancels.size(); return n; }
  bool waiting_uncancelled() const // an operation of the branch waits and was never asked to stop
  {
    for (auto g : mine) if (g->waiting() && g->cancels.empty()) return true;
    return false;
  }
  void took(Outcome o, const char * how)
  {
    c.log(how, " delivers ", o, " of branch ", id);
    PBT_CHECK(c, available(), how << " delivered " << o << " of branch " << id << " (" << bk_name(k) << ") which has no outcome");
    if (available()) PBT_CHECK(c, produced[taken].o == o, how << " delivered " << o << " of branch " << id << " (" << bk_name(k) << ") which ended with " << produced[taken].o);
    taken++;
    if (sub && sub_won) sub->taken++;
  }
  void check(bool torn_down = false)
  {
    PBT_CHECK(c, starts <= 1, "branch " << id << " started " << starts << " times");
    bool coro = k != bk::op && k != bk::nest && k != bk::nl;
    if (sub) sub->check(torn_down);
    if (torn_down) PBT_CHECK(c, frames == 0, "frame of branch " << id << " leaked");
    else if (coro && k != bk::gr && k != bk::gl) PBT_CHECK(c, frames == (starts && !ended ? 1 : 0), "branch " << id << " has " << frames << " live frames");
    for (auto g : mine)
    {
      PBT_CHECK(c, !g->stray_cancel, "cancellation delivered to a completed operation");
      PBT_CHECK(c, g->completions <= 1 && g->initiations <= 1, "operation started or completed twice");
    }
  }
  // awaits what is left of an lvalue branch
  cobalt::promise<Outcome> drain()
  {
    try
    {
      if (k == bk::gl) { G v = co_await *g; co_return Outcome::val(res_id(v)); }
      if (k == bk::pl) { if constexpr (std::is_void_v<T>) { co_await *p; co_return Outcome::val(0); } else { T v = co_await *p; co_return Outcome::val(res_id(v)); } }
      if (k == bk::tl) { if constexpr (std::is_void_v<T>) { co_await *t; co_return Outcome::val(0); } else { T v = co_await *t; co_return Outcome::val(res_id(v)); } }
    }
    catch (...) { co_return Outcome::from(std::current_exception()); }
    co_return Outcome{};
  }
};
}
