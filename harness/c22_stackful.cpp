// C22: functions run as coroutines on a stack of their own (experimental::make_context) and asio's yield_context.
// Every case is run twice: once with ordinary coroutines and once with (some of) them replaced by stackful functions with the
// same body. What they do, in which order, and what they report has to be the same.
#include "gate.hpp"
#include <boost/cobalt/experimental/context.hpp>
#include <boost/cobalt/experimental/yield_context.hpp>
#include <boost/cobalt/spawn.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/asio/spawn.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <cstring>

using namespace env; using namespace pbt;
namespace exper = cobalt::experimental;

enum kind_t { k_promise, k_task, k_gen, k_void, k_push, kinds };
enum step_t { s_gate, s_post, s_child, s_drop, s_state, s_reset, s_yield, s_race, steps };
struct Step { int kind, child, form, takes; bool swallow; };
struct Node { int kind; bool stack, throws, quiet, depth, custom; std::vector<Step> steps; };
struct GateSpec { on_cancel reaction; int when; bool fails; };
enum act_t { a_complete, a_step, a_cancel, a_drop, a_abandon };
struct Act { int kind; std::uint32_t v; bool posted; };
struct Plan { std::vector<Node> nodes; std::vector<GateSpec> gates; std::vector<Act> acts; bool yield = false; };

// Stacks that are checked when they are given back: nothing may be written to them afterwards.
struct Stacks
{
  static constexpr std::size_t size = 48 * 1024;
  std::map<char *, bool> all; std::string bad;
  char * get() { auto p = static_cast<char *>(std::malloc(size)); std::memset(p, 0x5a, size); all[p] = true; return p; }
  void put(char * p)
  {
    auto i = all.find(p);
    if (i == all.end() || !i->second) { bad = "a stack is freed that isn't in use"; return; }
    i->second = false; std::memset(p, 0xdd, size);
  }
  std::size_t in_use() const { std::size_t n = 0; for (auto & a : all) n += a.second; return n; }
  void check() { for (auto & a : all) if (!a.second) for (std::size_t i = 0; i < size; i++) if (static_cast<unsigned char>(a.first[i]) != 0xdd) { bad = "a stack was written to after it was freed, " + std::to_string(size - i) + " bytes below its top"; return; } }
  ~Stacks() { for (auto & a : all) std::free(a.first); }
};
struct StackAlloc
{
  Stacks * s;
  boost::context::stack_context allocate() { boost::context::stack_context c; c.size = Stacks::size; c.sp = s->get() + Stacks::size; return c; }
  void deallocate(boost::context::stack_context & c) noexcept { s->put(static_cast<char *>(c.sp) - Stacks::size); }
};

struct World
{
  const Plan & plan; Env & e; bool stackful; Stacks & st;
  std::deque<Gate> gates;
  std::vector<std::string> ev;
  int spent = 0;
  World(const Plan & p, Env & e, bool s, Stacks & st) : plan(p), e(e), stackful(s), st(st) {}
  template<typename ... A> void log(A && ... a) { std::ostringstream os; ((os << a), ...); ev.push_back(os.str()); }
  Gate & gate()
  {
    auto & s = plan.gates[gates.size() % plan.gates.size()];
    auto & g = gates.emplace_back(e, static_cast<int>(gates.size()));
    g.reaction = s.reaction; g.immediate_ready = s.when == 1; g.immediate_init = s.when == 2;
    g.imm_val = g.id + 1; if (s.fails) g.imm_ec = asio::error::host_not_found;
    g.on_initiate = [this, i = g.id] { log("operation ", i, " starts"); };
    g.on_complete = [this, i = g.id](error_code ec, int v) { log("operation ", i, " completes ", ec.value(), " ", v); };
    return g;
  }
  error_code ec(int id) const { return plan.gates[static_cast<std::size_t>(id) % plan.gates.size()].fails ? error_code(asio::error::host_not_found) : error_code(); }
  void complete(Gate & g, bool posted) { g.complete(ec(g.id), g.id + 1, posted); }
  cobalt::promise<int> promise(int n); cobalt::task<int> task(int n); cobalt::generator<int> gen(int n); cobalt::task<void> vtask(int n);
  cobalt::generator<int, int> push(int n);
};

struct Arg : Live { int id; explicit Arg(int i) : id(i) {} };
struct Local : Live
{
  World & w; int n; std::string what;
  Local(World & w, int n, std::string what) : w(w), n(n), what(std::move(what)) {}
  Local(const Local &) = delete;
  ~Local() { w.log("node ", n, ": ", what, " destroyed"); }
};
static int mix(int a, int b) { return static_cast<int>((static_cast<unsigned>(a) * 31u + static_cast<unsigned>(b)) % 1000003u); }
// what's awaited in the form f; a yield_context can only await it plainly
#define PLAIN(AW, f, x, into) into = AW(x);
#define FORMS(AW, f, x, into)                                                                                            \
  if ((f) == 0) into = AW(x);                                                                                            \
  else if ((f) == 1) { auto r_ = AW(cobalt::as_result(x)); if (r_.has_value()) into = *r_; else { into = -7; w.log("node ", n, ": as_result has an error"); } } \
  else { auto t_ = AW(cobalt::as_tuple(x)); into = std::get<1>(t_); w.log("node ", n, ": as_tuple ", bool(std::get<0>(t_))); }

// The body of every node. AW awaits, YIELD(x) yields, STATE awaits and logs what's known only to coroutines
#define BODY(AW, VALUE, YIELD, STATE)                                                                                          \
  Local first_(w, n, "first local");                                                                                     \
  w.log("node ", n, " starts with ", arg.id);                                                                            \
  const Node & node = w.plan.nodes[static_cast<std::size_t>(n)];                                                         \
  int acc = n;                                                                                                           \
  for (auto & s : node.steps)                                                                                            \
  {                                                                                                                      \
    if (w.spent++ > 120) break;                                                                                          \
    Local step_(w, n, "local of a step");                                                                                \
    try                                                                                                                  \
    {                                                                                                                    \
      switch (s.kind)                                                                                                    \
      {                                                                                                                  \
        case s_gate: { auto & g = w.gate(); int v; VALUE(AW, s.form, g, v) acc = mix(acc, v); break; }                   \
        case s_post: { AW(asio::post(w.e.ctx, cobalt::use_op)); w.log("node ", n, " posted"); break; }                    \
        case s_child: case s_drop:                                                                                       \
        {                                                                                                                \
          auto & ch = w.plan.nodes[static_cast<std::size_t>(s.child)];                                                   \
          int v = 0;                                                                                                     \
          switch (ch.kind)                                                                                               \
          {                                                                                                              \
            case k_promise:                                                                                              \
            {                                                                                                            \
              auto p = w.promise(s.child);                                                                               \
              if (s.takes % 2) { auto & g = w.gate(); AW(g); }                                                           \
              w.log("node ", n, ": promise ", s.child, p.ready() ? " is ready" : " isn't ready");                        \
              if (s.kind == s_child) { VALUE(AW, s.form, p, v) }                                                         \
              break;                                                                                                     \
            }                                                                                                            \
            case k_task:                                                                                                 \
            {                                                                                                            \
              auto t = w.task(s.child);                                                                                  \
              w.log("node ", n, ": made task ", s.child);                                                                \
              if (s.kind == s_child) { if (s.takes % 2) v = AW(std::move(t)); else { VALUE(AW, s.form, t, v) } }         \
              break;                                                                                                     \
            }                                                                                                            \
            case k_void: { auto t = w.vtask(s.child); if (s.kind == s_child) { AW(t); v = 3; } break; }                  \
            case k_gen:                                                                                                  \
            {                                                                                                            \
              auto gn = w.gen(s.child);                                                                                  \
              for (int i = 0; gn && i < (s.kind == s_child ? 100 : s.takes); i++)                                        \
              { int x; VALUE(AW, s.form, gn, x) w.log("node ", n, " took ", x); v = mix(v, x); }                         \
              break;                                                                                                     \
            }                                                                                                            \
            case k_push:                                                                                                 \
            {                                                                                                            \
              auto gn = w.push(s.child);                                                                                 \
              for (int i = 0; gn && i < (s.kind == s_child ? 100 : s.takes); i++)                                        \
              { int x = AW(gn(n * 100 + i)); w.log("node ", n, " took ", x); v = mix(v, x); }                            \
              break;                                                                                                     \
            }                                                                                                            \
          }                                                                                                              \
          acc = mix(acc, v);                                                                                             \
          break;                                                                                                         \
        }                                                                                                                \
        case s_race:                                                                                                     \
        {                                                                                                                \
          auto & a = w.gate(); auto & b = w.gate();                                                                      \
          auto r = AW(cobalt::left_race(a, b));                                                                               \
          w.log("node ", n, " race won by ", r.index()); acc = mix(acc, static_cast<int>(r.index()));                    \
          break;                                                                                                         \
        }                                                                                                                \
        case s_yield: { YIELD(acc) break; }                                                                              \
        default: { STATE(s) break; }                                                                                     \
      }                                                                                                                  \
    }                                                                                                                    \
    catch (test_error & t) { w.log("node ", n, " caught exception ", t.id); if (!s.swallow && !node.quiet) throw; }      \
    catch (boost::system::system_error & se) { w.log("node ", n, " caught error ", se.code().value()); if (!s.swallow && !node.quiet) throw; } \
  }                                                                                                                      \
  w.log("node ", n, " ends with ", acc);                                                                                 \
  if (node.throws && !node.quiet) throw test_error(n);

#define CO_AW(x) co_await (x)
#define ST_AW(x) c.await(x)
#define YC_AW(x) exper::await(x, yc)
#define NO_YIELD(x) w.log("node ", n, " can't yield");
#define STATE_OF(AW, s)                                                                                                  \
  if ((s).kind == s_reset) { AW(cobalt::this_coro::reset_cancellation_state()); }                                        \
  else { auto cs = AW(cobalt::this_coro::cancellation_state); w.log("node ", n, ": cancelled ", int(cs.cancelled()));     \
         auto ex = AW(cobalt::this_coro::executor); w.log("node ", n, ex == cobalt::executor(w.e.ctx.get_executor()) ? ": its executor" : ": another executor"); }
#define CO_STATE(s) STATE_OF(CO_AW, s)
#define ST_STATE(s) STATE_OF(ST_AW, s)
#define NO_STATE(s) w.log("node ", n, " has no state");
#define CO_YIELD(x) co_yield x; w.log("node ", n, " goes on after its yield");
#define ST_YIELD(x) c.yield(x); w.log("node ", n, " goes on after its yield");
#define CO_PUSH(x) { int pushed = co_yield x; w.log("node ", n, " got ", pushed); acc = mix(acc, pushed); }
#define ST_PUSH(x) { int pushed = c.yield(x); w.log("node ", n, " got ", pushed); acc = mix(acc, pushed); }

static cobalt::promise<int> co_promise(World & w, int n, Arg arg) { BODY(CO_AW, FORMS, NO_YIELD, CO_STATE) co_return acc; }
static cobalt::task<int> co_task(World & w, int n, Arg arg) { BODY(CO_AW, FORMS, NO_YIELD, CO_STATE) co_return acc; }
static cobalt::task<void> co_void(World & w, int n, Arg arg) { BODY(CO_AW, FORMS, NO_YIELD, CO_STATE) co_return; }
static cobalt::generator<int> co_gen(World & w, int n, Arg arg) { BODY(CO_AW, FORMS, CO_YIELD, CO_STATE) co_return acc; }
static cobalt::generator<int, int> co_push(World & w, int n, Arg arg) { BODY(CO_AW, FORMS, CO_PUSH, CO_STATE) co_return acc; }
#define ST(R) exper::context<R> c, World & w, int n, Arg arg
static int st_promise(exper::context<cobalt::promise<int>, World &, int, Arg> c, World & w, int n, Arg arg) { BODY(ST_AW, FORMS, NO_YIELD, ST_STATE) return acc; }
static int st_task(exper::context<cobalt::task<int>, World &, int, Arg> c, World & w, int n, Arg arg) { BODY(ST_AW, FORMS, NO_YIELD, ST_STATE) return acc; }
static void st_void(exper::context<cobalt::task<void>, World &, int, Arg> c, World & w, int n, Arg arg) { BODY(ST_AW, FORMS, NO_YIELD, ST_STATE) }
static int st_gen(exper::context<cobalt::generator<int>, World &, int, Arg> c, World & w, int n, Arg arg) { BODY(ST_AW, FORMS, ST_YIELD, ST_STATE) return acc; }
static int st_push(exper::context<cobalt::generator<int, int>, World &, int, Arg> c, World & w, int n, Arg arg) { BODY(ST_AW, FORMS, ST_PUSH, ST_STATE) return acc; }

template<typename R, typename F> R stack(World & w, int n, F f)
{
  return exper::make_context<R, World &, int, Arg>(std::move(f), std::allocator_arg, StackAlloc{&w.st}, w, std::move(n), Arg(n));
}
#define ON_STACK(n) (w_.stackful && w_.plan.nodes[static_cast<std::size_t>(n)].stack)
cobalt::promise<int> World::promise(int n) { auto & w_ = *this; return ON_STACK(n) ? stack<cobalt::promise<int>>(*this, n, &st_promise) : co_promise(*this, n, Arg(n)); }
cobalt::task<int> World::task(int n) { auto & w_ = *this; return ON_STACK(n) ? stack<cobalt::task<int>>(*this, n, &st_task) : co_task(*this, n, Arg(n)); }
cobalt::task<void> World::vtask(int n) { auto & w_ = *this; return ON_STACK(n) ? stack<cobalt::task<void>>(*this, n, &st_void) : co_void(*this, n, Arg(n)); }
cobalt::generator<int> World::gen(int n) { auto & w_ = *this; return ON_STACK(n) ? stack<cobalt::generator<int>>(*this, n, &st_gen) : co_gen(*this, n, Arg(n)); }
cobalt::generator<int, int> World::push(int n) { auto & w_ = *this; return ON_STACK(n) ? stack<cobalt::generator<int, int>>(*this, n, &st_push) : co_push(*this, n, Arg(n)); }

struct Result { std::vector<std::string> ev; std::vector<std::vector<int>> cancels; bool abandoned = false; int ended = 0; std::string error, final; std::size_t stacks = 0; long long live = 0; };

// yield mode: the root is run by asio::spawn, or by cobalt::spawn
static int yc_root(World & w, int n, Arg arg, asio::yield_context yc) { BODY(YC_AW, PLAIN, NO_YIELD, NO_STATE) return acc; }

static Result run(const Plan & plan, bool stackful)
{
  Result r; auto live0 = Live::n;
  {
    Env e; Stacks st;
    {
      World w(plan, e, stackful, st);
      std::optional<cobalt::promise<int>> root; asio::cancellation_signal sig;
      auto outcome = [&](std::exception_ptr ep, int v) { r.ended++; r.final = ep ? ep_name(ep) : std::to_string(v); };
      if (plan.yield)
      {
        if (stackful) asio::spawn(e.ctx, std::allocator_arg, StackAlloc{&st}, [&](asio::yield_context yc) { return yc_root(w, 0, Arg(0), yc); }, asio::bind_cancellation_slot(sig.slot(), outcome));
        else cobalt::spawn(e.ctx, co_task(w, 0, Arg(0)), asio::bind_cancellation_slot(sig.slot(), outcome));
      }
      else root.emplace(w.promise(0));
      auto each = [&](std::uint32_t v, auto f) { for (std::size_t j = 0; j < w.gates.size(); j++) { auto & g = w.gates[(v + j) % w.gates.size()]; if (g.waiting()) { f(g); return true; } } return false; };
      bool dropped = false;
      for (auto & a : plan.acts)
      {
        w.log("-- action ", a.kind);
        switch (a.kind)
        {
          case a_complete: each(a.v, [&](Gate & g) { w.complete(g, a.posted); }); break;
          case a_step: if (plan.yield) e.settle(); else e.step(1 + a.v % 3); break; // spawning takes another number of steps
          case a_cancel: if (root) root->cancel(); else if (plan.yield && !r.ended && !r.abandoned) sig.emit(asio::cancellation_type::terminal); break;
          case a_drop: if (!plan.yield) { root.reset(); dropped = true; } break;
          case a_abandon:
            r.abandoned = true;
            // what's abandoned takes its awaiters with it; whatever is left is abandoned too
            for (int k = 0; k < 40 && each(0, [&](Gate & g) { g.drop(); }); k++) ;
            e.settle();
            break;
        }
        if (r.abandoned) break;
      }
      if (!r.abandoned)
        for (int k = 0; k < 400; k++) { bool any = each(0, [&](Gate & g) { w.complete(g, false); }); if (!e.settle() && !any) break; }
      if (root)
      {
        w.log(root->ready() ? "root is ready" : "root isn't ready");
        if (!r.abandoned)
        {
          if (!root->ready()) r.error = "the root hangs";
          else { int v = 0; std::exception_ptr ep; try { v = root->get(); } catch (...) { ep = std::current_exception(); } outcome(ep, v); }
        }
        root.reset();
      }
      for (int k = 0; k < 400; k++) { bool any = each(0, [&](Gate & g) { w.complete(g, false); }); if (!e.settle() && !any) break; }
      if (plan.yield && !r.abandoned && r.ended != 1 && r.error.empty()) r.error = "the root completed " + std::to_string(r.ended) + " times";
      for (auto & g : w.gates) { r.cancels.emplace_back(); for (auto ct : g.cancels) r.cancels.back().push_back(static_cast<int>(ct)); if (g.stray_cancel) w.log("operation ", g.id, " cancelled after its end"); }
      r.stacks = st.in_use();
      r.ev = std::move(w.ev);
    }
    e.settle();
    st.check(); if (!st.bad.empty()) r.error = st.bad;
    if (st.in_use()) r.error = std::to_string(st.in_use()) + " stack(s) never freed";
    if (e.res.bad) r.error = e.res.what;
    if (!e.res.live.empty()) r.error = std::to_string(e.res.live.size()) + " block(s) never freed";
  }
  r.live = Live::n - live0;
  return r;
}

static Plan draw(Src & src, Ctx & c, bool yield)
{
  Plan p; p.yield = yield;
  int nodes = 2 + static_cast<int>(src.below(5));
  bool calm = src.chance(2, 3), dropper = calm && src.chance(1, 3), canceller = calm && src.chance(1, 2), abandon = calm && src.chance(1, 3);
  if (yield) dropper = false;
  for (int i = 0; i < nodes; i++)
  {
    auto & n = p.nodes.emplace_back();
    n.kind = i == 0 ? static_cast<int>(k_promise) : static_cast<int>(src.below(kinds));
    n.stack = src.chance(3, 4); n.throws = src.chance(1, 5); n.quiet = false;
  }
  for (int i = 0; i < nodes; i++)
  {
    auto & n = p.nodes[static_cast<std::size_t>(i)];
    auto ns = src.below(i == 0 ? 5 : 4) + (i == 0);
    for (std::uint32_t k = 0; k < ns; k++)
    {
      Step s{};
      constexpr int ks[] = {s_gate, s_child, s_child, s_drop, s_post, s_state, s_reset, s_race, s_yield, s_gate};
      s.kind = ks[src.below(n.kind == k_gen || n.kind == k_push ? 10 : 8)];
      if (yield && i == 0 && (s.kind == s_state || s.kind == s_reset)) s.kind = s_gate; // not for a yield_context
      if ((n.kind == k_gen || n.kind == k_push) && src.chance(1, 3)) s.kind = s_yield;
      if (s.kind == s_child || s.kind == s_drop) { if (i + 1 >= nodes) s.kind = s_gate; else s.child = i + 1 + static_cast<int>(src.below(static_cast<std::uint32_t>(nodes - i - 1))); }
      s.form = static_cast<int>(src.below(3)); if (yield && i == 0) s.form = 0; s.takes = static_cast<int>(src.below(4)); s.swallow = src.flip();
      if (!calm && s.kind == s_drop) s.kind = s_child;
      if (!calm && s.kind == s_child && p.nodes[static_cast<std::size_t>(s.child)].kind == k_promise) s.takes = 0;
      n.steps.push_back(s);
    }
  }
  // An exception nobody can receive isn't part of this: either nothing is dropped unfinished, or what may be swallows its errors.
  for (std::size_t i = yield ? 1 : 0; i < p.nodes.size(); i++) if (calm) { auto k = p.nodes[i].kind; if (k == k_promise || k == k_gen || k == k_push) p.nodes[i].quiet = true; }
  auto ng = 1 + src.below(6);
  for (std::uint32_t i = 0; i < ng; i++)
  {
    GateSpec g; g.reaction = static_cast<on_cancel>(src.below(3)); g.when = src.chance(1, 3) ? 1 + static_cast<int>(src.below(2)) : 0; g.fails = src.chance(1, 6);
    p.gates.push_back(g);
  }
  auto na = src.below(16);
  for (std::uint32_t i = 0; i < na; i++)
  {
    Act a; auto k = src.weighted({8, 6, canceller ? 1u : 0u, dropper ? 1u : 0u, abandon ? 1u : 0u}); a.kind = static_cast<int>(k); a.v = src.below(8); a.posted = src.flip();
    p.acts.push_back(a);
  }
  (void)c;
  return p;
}

static void property(Src & src, Ctx & c, bool yield)
{
  auto p = draw(src, c, yield);
  for (std::size_t i = 0; i < p.nodes.size(); i++)
  {
    auto & n = p.nodes[i]; c.log("node ", i, " kind ", n.kind, n.stack ? " on a stack" : "", n.throws ? " throws" : "", n.quiet ? " quiet" : "");
    for (auto & s : n.steps) c.log("  step ", s.kind, " child ", s.child, " form ", s.form, " takes ", s.takes, s.swallow ? " swallows" : "");
  }
  auto a = run(p, false);
  for (auto & l : a.ev) c.log("coroutine: ", l);
  auto b = run(p, true);
  for (auto & l : b.ev) c.log("stackful:  ", l);
  bool cancelled = false; for (auto & x : p.acts) if (x.kind == a_cancel) cancelled = true;
  PBT_CHECK(c, a.error.empty(), "coroutines: " << a.error);
  PBT_CHECK(c, b.error.empty(), "stackful: " << b.error);
  PBT_CHECK(c, a.live == 0 && b.live == 0, "objects never destroyed: " << a.live << " by coroutines, " << b.live << " by stackful ones");
  if (!(yield && (cancelled || b.abandoned))) // a yield_context has another cancellation state, and asio posts its destruction
  {
    for (std::size_t i = 0; i < std::max(a.ev.size(), b.ev.size()) && !c.failed; i++)
    {
      auto x = i < a.ev.size() ? a.ev[i] : std::string("(nothing)"); auto y = i < b.ev.size() ? b.ev[i] : std::string("(nothing)");
      PBT_CHECK(c, x == y, "event " << i << ": coroutines '" << x << "', stackful '" << y << "'");
    }
    PBT_CHECK(c, a.ended == b.ended && a.final == b.final, "coroutines: root ended " << a.ended << " times with '" << a.final << "', stackful: " << b.ended << " times with '" << b.final << "'");
    PBT_CHECK(c, a.cancels == b.cancels, "the operations got other cancellation requests");
  }
  bool st = yield; for (auto & n : p.nodes) for (auto & s : n.steps) if (s.kind == s_child && p.nodes[static_cast<std::size_t>(s.child)].stack) st = true;
  if (cancelled) c.label("cancelled");
  if (b.abandoned) c.label("abandoned");
  for (auto & x : p.acts) if (x.kind == a_drop) c.label("root_dropped");
  if (a.ev.size() > 60) c.label("long");
  if (st && a.ev.size() > 20) c.mark_nontrivial();
}

int main(int argc, char ** argv)
{
  const char * d = "trees of 2-6 promises, tasks and generators (with and without push), three quarters of them functions on stacks of their own, awaiting operations, each other and races in three forms, yielding, throwing, dropped, cancelled and abandoned at random points; "
                   "compared with the same bodies as coroutines; non-trivial: more than 20 events and a stackful child";
  return pbt::run_main(argc, argv, "C22", {
    {"context", d, 600000, 12000000, [](Src & s, Ctx & c) { property(s, c, false); }},
    {"yield", "the same with a root run by asio::spawn awaiting through experimental::await, compared with a spawned task; non-trivial: more than 20 events", 400000, 8000000, [](Src & s, Ctx & c) { property(s, c, true); }, false},
  });
}
