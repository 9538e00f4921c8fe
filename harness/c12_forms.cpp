// C12: the same scripted awaitable is awaited plainly, through as_result and through as_tuple; what the three report, and what
// they leave behind, is compared.
#include "gate.hpp"
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
#include <boost/cobalt/wait_group.hpp>
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/noop.hpp>
#include <boost/variant2/variant.hpp>
#include <random>
using namespace env;
using pbt::Src; using pbt::Ctx;

struct leaf_plan { int gates; bool fail; int id; };
struct act { int what, who, arg; };
struct plan_t
{
  int kind = 0, n = 0, awaits = 0, capacity = 0, lvalue = 0, prefill = 0, misc = 0; std::vector<leaf_plan> leaves; std::vector<act> acts;
  std::vector<int> reactions, readies, ecs; unsigned seed = 0;
};
struct report { std::vector<std::string> lines; };

// ---- normal form of what an await gave
template<typename T> void flat(std::string & o, T & t);
template<typename ... Ts> void flat_tuple(std::string & o, std::tuple<Ts...> & t) { std::apply([&](auto & ... a) { (flat(o, a), ...); }, t); }
template<typename T> constexpr bool is_tuple = false; template<typename ... T> constexpr bool is_tuple<std::tuple<T...>> = true;
template<typename T> constexpr bool is_pair = false; template<typename A, typename B> constexpr bool is_pair<std::pair<A, B>> = true;
template<typename T> constexpr bool is_var = false; template<typename ... T> constexpr bool is_var<boost::variant2::variant<T...>> = true;
template<typename T> constexpr bool is_res = false; template<typename T, typename E> constexpr bool is_res<boost::system::result<T, E>> = true;
template<typename T> constexpr bool is_err = std::is_same_v<T, std::exception_ptr> || std::is_same_v<T, error_code>;
inline std::string err_str(std::exception_ptr e) { return ep_name(e); }
inline std::string err_str(error_code e) { return e ? "system:" + e.message() : "none"; }
inline bool err_set(std::exception_ptr e) { return !!e; }
inline bool err_set(error_code e) { return !!e; }
template<typename T> std::string err_str_adl(const T & t) { return err_str(t); }
template<typename T> void flat(std::string & o, T & t)
{
  if constexpr (is_tuple<T>) flat_tuple(o, t);
  else if constexpr (is_pair<T>) { flat(o, t.first); flat(o, t.second); }
  else if constexpr (is_var<T>) { o += "#" + std::to_string(t.index()) + " "; boost::variant2::visit([&](auto & a) { flat(o, a); }, t); }
  else if constexpr (is_res<T>)
  {
    if (t.has_error()) { o += "!" + err_str_adl(t.error()) + " "; }
    else { o += "= "; if constexpr (!std::is_void_v<typename T::value_type>) flat(o, *t); }
  }
  else if constexpr (is_err<T>) o += err_str(t) + " ";
  else if constexpr (std::is_same_v<T, boost::variant2::monostate>) o += "() ";
  else if constexpr (std::is_integral_v<T>) o += std::to_string(t) + " ";
  else if constexpr (requires {t.id;}) o += std::to_string(t.id) + " ";
  else { o += "[ "; for (auto & a : t) flat(o, a); o += "] "; }
}

struct world
{
  Env e; Ctx & c; const plan_t & p; int form;
  std::deque<Gate> gates; report r; std::size_t next_leaf = 0; std::mt19937 rng; bool finished = false, all = false; int pushes = 0;
  std::deque<cobalt::promise<val>> pv; std::deque<cobalt::promise<void>> p0; std::deque<cobalt::promise<mo>> pm; std::deque<cobalt::promise<nodef>> pn;
  std::vector<cobalt::promise<val>> vv; std::vector<cobalt::promise<void>> v0;
  std::optional<cobalt::task<val>> tv; std::optional<cobalt::task<void>> t0; std::optional<cobalt::task<mo>> tm; std::optional<cobalt::task<nodef>> tn;
  std::optional<cobalt::generator<val>> gv; std::optional<cobalt::generator<val, int>> gp; std::optional<cobalt::generator<mo, mo>> gm;
  std::optional<cobalt::channel<val>> cv; std::optional<cobalt::channel<void>> c0; std::optional<cobalt::channel<mo>> cm;
  std::optional<cobalt::wait_group> wg;
  std::optional<cobalt::promise<void>> actor;
  world(Ctx & c, const plan_t & p, int form) : c(c), p(p), form(form), rng(p.seed) {}
  void note(std::string s) { c.log("  form ", form, ": ", s); r.lines.push_back(std::move(s)); }

  Gate & gate()
  {
    auto i = gates.size(); auto & g = gates.emplace_back(e, int(i));
    g.reaction = static_cast<on_cancel>(i < p.reactions.size() ? p.reactions[i] : 0);
    g.immediate_ready = i < p.readies.size() && p.readies[i] == 1; g.immediate_init = i < p.readies.size() && p.readies[i] == 2; g.imm_val = 100 + int(i);
    if (i < p.ecs.size() && p.ecs[i]) g.imm_ec = error_code(p.ecs[i], boost::system::generic_category());
    if (all) { g.immediate_ready = true; g.imm_ec = {}; }
    return g;
  }
  const leaf_plan & leaf() { static const leaf_plan none{0, false, 0}; return next_leaf < p.leaves.size() ? p.leaves[next_leaf++] : none; }

  template<typename Coro, typename T> static Coro coro(world & w, const leaf_plan & l)
  {
    for (int i = 0; i < l.gates; i++) { int v = co_await w.gate(); (void)v; }
    if (l.fail) throw test_error(l.id);
    if constexpr (std::is_void_v<T>) co_return; else co_return T(l.id);
  }
  template<typename T> cobalt::promise<T> pr() { return coro<cobalt::promise<T>, T>(*this, leaf()); }
  template<typename T> cobalt::task<T> ta() { return coro<cobalt::task<T>, T>(*this, leaf()); }
  template<typename Y> static cobalt::generator<Y> gen(world & w, int n)
  {
    for (int i = 0; i < n; i++) { auto & l = w.leaf(); for (int k = 0; k < l.gates; k++) { int v = co_await w.gate(); (void)v; } if (l.fail) throw test_error(l.id); co_yield Y(l.id); }
    auto & l = w.leaf(); if (l.fail) throw test_error(l.id);
    co_return Y(900);
  }
  template<typename Y, typename P> static cobalt::generator<Y, P> echo(world & w, int n, bool lazy)
  {
    P in(0);
    if (lazy) { P nx = co_await cobalt::this_coro::initial; in = std::move(nx); }
    for (int i = 0; i < n; i++) { auto & l = w.leaf(); for (int k = 0; k < l.gates; k++) { int v = co_await w.gate(); (void)v; } if (l.fail) throw test_error(l.id); P nx = co_yield Y(1000 + id_of(in)); in = std::move(nx); }
    co_return Y(id_of(in));
  }
};

// ---- one await, in form F
template<int F, typename Mk> cobalt::task<void> await_as(world & w, std::string what, Mk mk)
{
  co_await cobalt::this_coro::throw_if_cancelled(false);
  std::string o;
  using plain = std::decay_t<cobalt::detail::co_await_result_t<decltype(mk())>>;
  try
  {
    if constexpr (F == 0)
    {
      if constexpr (std::is_void_v<plain>) { co_await mk(); }
      else { auto r = co_await mk(); flat(o, r); }
      o = "value " + o;
    }
    else if constexpr (F == 1)
    {
      auto r = co_await cobalt::as_result(mk());
      static_assert(is_res<decltype(r)>);
      if (r.has_error()) o = "error " + err_str_adl(r.error());
      else { if constexpr (!std::is_void_v<plain>) flat(o, *r); o = "value " + o; }
    }
    else
    {
      auto t = co_await cobalt::as_tuple(mk());
      using t_t = decltype(t);
      if constexpr (is_err<t_t>) o = err_set(t) ? "error " + err_str(t) : "value ";
      else if constexpr (std::tuple_size_v<t_t> == 0) o = "value ";
      else
      {
        static_assert(is_tuple<t_t>);
        if constexpr (is_err<std::tuple_element_t<0, t_t>>)
        {
          if (err_set(std::get<0>(t))) o = "error " + err_str(std::get<0>(t));
          else { std::apply([&](auto &, auto & ... rest) { (flat(o, rest), ...); }, t); o = "value " + o; }
        }
        else { flat(o, t); o = "value " + o; }
      }
    }
  }
  catch (...)
  {
    auto ep = std::current_exception();
    PBT_CHECK(w.c, F == 0, what << " through " << (F == 1 ? "as_result" : "as_tuple") << " threw " << ep_name(ep));
    o = "error " + ep_name(ep);
  }
  w.note(what + ": " + o);
}

// awaitables without any knowledge of the forms
template<typename T, bool Noexcept> struct generic
{
  world * w; int id; bool fail, ready; 
  bool await_ready() { return ready; }
  void await_suspend(std::coroutine_handle<> h) { asio::post(w->e.ctx, [h]() mutable { h.resume(); }); }
  T await_resume() noexcept(Noexcept)
  {
    if constexpr (!Noexcept) if (fail) throw test_error(id);
    if constexpr (std::is_same_v<T, void>) return; else if constexpr (is_tuple<T>) return T{id, val(id + 1)}; else return T(id);
  }
};

constexpr int kinds = 40;
static const char * kind_names[kinds] = {"promise<void>", "promise<val>", "promise<mo>", "promise<nodef>", "task<void>", "task<val>", "task<mo>", "task<nodef>", "generator<val>", "generator<val,int>", "generator<mo,mo>",
  "channel<val>.read", "channel<val>.write", "channel<void>.read", "channel<void>.write", "channel<mo>.read", "left_race mixed", "left_race void", "race range", "race range void", "gather", "gather range", "gather range void",
  "join", "join void", "join range", "join range void", "wait_group.wait", "wait_group.wait_one", "co_await wait_group", "with<void>", "with<val>", "generic<int>", "generic<int> noexcept", "generic<void>", "generic<void> noexcept", "generic<tuple>", "op", "race of ops", "gather of ops"};

// somebody else is awaiting it already
template<typename T> cobalt::detached other(world & w, T & x)
{
  std::string o;
  try { using plain = std::decay_t<cobalt::detail::co_await_result_t<T &>>; if constexpr (std::is_void_v<plain>) { co_await x; } else { auto r = co_await x; flat(o, r); } w.note("first awaiter: value " + o); }
  catch (...) { w.note("first awaiter: " + ep_name(std::current_exception())); }
}

template<int F> cobalt::promise<void> actor(world & w)
{
  co_await cobalt::this_coro::throw_if_cancelled(false);
  auto & p = w.p; std::string nm = kind_names[p.kind];
  for (int i = 0; i < p.awaits; i++)
  {
    switch (p.kind)
    {
      case 0: { auto & x = w.p0.emplace_back(w.pr<void>()); if (p.misc) other(w, x); if (p.lvalue || p.misc) co_await await_as<F>(w, nm, [&]() -> auto & { return x; }); else co_await await_as<F>(w, nm, [&]() { return std::move(x); }); break; }
      case 1: { auto & x = w.pv.emplace_back(w.pr<val>()); if (p.misc) other(w, x); if (p.lvalue || p.misc) co_await await_as<F>(w, nm, [&]() -> auto & { return x; }); else co_await await_as<F>(w, nm, [&]() { return std::move(x); }); w.note("moved " + std::to_string(!x)); break; }
      case 2: { auto & x = w.pm.emplace_back(w.pr<mo>()); if (p.misc) other(w, x); if (p.lvalue || p.misc) co_await await_as<F>(w, nm, [&]() -> auto & { return x; }); else co_await await_as<F>(w, nm, [&]() { return std::move(x); }); break; }
      case 3: { auto & x = w.pn.emplace_back(w.pr<nodef>()); if (p.misc) other(w, x); constexpr int G = F == 2 ? 1 : F; co_await await_as<G>(w, nm, [&]() -> auto & { return x; }); break; }
      case 4: { w.t0.emplace(w.ta<void>()); if (p.misc) other(w, *w.t0); if (p.lvalue || p.misc) co_await await_as<F>(w, nm, [&]() -> auto & { return *w.t0; }); else co_await await_as<F>(w, nm, [&]() { return std::move(*w.t0); }); break; }
      case 5: { w.tv.emplace(w.ta<val>()); if (p.misc) other(w, *w.tv); if (p.lvalue || p.misc) co_await await_as<F>(w, nm, [&]() -> auto & { return *w.tv; }); else co_await await_as<F>(w, nm, [&]() { return std::move(*w.tv); }); break; }
      case 6: { w.tm.emplace(w.ta<mo>()); if (p.misc) other(w, *w.tm); if (p.lvalue || p.misc) co_await await_as<F>(w, nm, [&]() -> auto & { return *w.tm; }); else co_await await_as<F>(w, nm, [&]() { return std::move(*w.tm); }); break; }
      case 7: { w.tn.emplace(w.ta<nodef>()); if (p.misc) other(w, *w.tn); constexpr int G = F == 2 ? 1 : F; co_await await_as<G>(w, nm, [&]() -> auto & { return *w.tn; }); break; }
      case 8: if (!w.gv) w.gv.emplace(world::gen<val>(w, p.n)); if (!*w.gv) break; if (p.misc && !i) { other(w, *w.gv); if (!*w.gv) break; } co_await await_as<F>(w, nm, [&]() -> auto & { return *w.gv; }); w.note("alive " + std::to_string(!!*w.gv)); break;
      case 9: if (!w.gp) w.gp.emplace(world::echo<val, int>(w, p.n, p.lvalue)); if (!*w.gp) break; co_await await_as<F>(w, nm, [&]() { return (*w.gp)(++w.pushes); }); w.note("alive " + std::to_string(!!*w.gp)); break;
      case 10: if (!w.gm) w.gm.emplace(world::echo<mo, mo>(w, p.n, p.lvalue)); if (!*w.gm) break; { mo m(++w.pushes); co_await await_as<F>(w, nm, [&]() { return (*w.gm)(std::move(m)); }); w.note("pushed " + std::to_string(m.id)); } break;
      case 11: co_await await_as<F>(w, nm, [&]() { return w.cv->read(); }); break;
      case 12: { val v(500 + i); if (p.lvalue) co_await await_as<F>(w, nm, [&]() { return w.cv->write(v); }); else co_await await_as<F>(w, nm, [&]() { return w.cv->write(std::move(v)); }); w.note("source " + std::to_string(v.id)); break; }
      case 13: co_await await_as<F>(w, nm, [&]() { return w.c0->read(); }); break;
      case 14: co_await await_as<F>(w, nm, [&]() { return w.c0->write(); }); break;
      case 15: co_await await_as<F>(w, nm, [&]() { return w.cm->read(); }); break;
      case 16: { auto & a = w.pv.emplace_back(w.pr<val>()); auto & b = w.p0.emplace_back(w.pr<void>()); auto & d = w.pm.emplace_back(w.pr<mo>()); co_await await_as<F>(w, nm, [&]() { return cobalt::left_race(a, b, d); }); break; }
      case 17: { auto & a = w.p0.emplace_back(w.pr<void>()); auto & b = w.p0.emplace_back(w.pr<void>()); co_await await_as<F>(w, nm, [&]() { return cobalt::left_race(a, b); }); break; }
      case 18: { if (i) break; for (int k = 0; k <= p.n; k++) w.vv.push_back(w.pr<val>()); co_await await_as<F>(w, nm, [&]() { return cobalt::race(w.rng, w.vv); }); break; }
      case 19: { if (i) break; for (int k = 0; k <= p.n; k++) w.v0.push_back(w.pr<void>()); co_await await_as<F>(w, nm, [&]() { return cobalt::race(w.rng, w.v0); }); break; }
      case 20: { auto & a = w.pv.emplace_back(w.pr<val>()); auto & b = w.p0.emplace_back(w.pr<void>()); auto & d = w.pm.emplace_back(w.pr<mo>()); co_await await_as<F>(w, nm, [&]() { return cobalt::gather(a, b, d); }); break; }
      case 21: { if (i) break; for (int k = 0; k < p.n; k++) w.vv.push_back(w.pr<val>()); co_await await_as<F>(w, nm, [&]() { return cobalt::gather(w.vv); }); break; }
      case 22: { if (i) break; for (int k = 0; k < p.n; k++) w.v0.push_back(w.pr<void>()); co_await await_as<F>(w, nm, [&]() { return cobalt::gather(w.v0); }); break; }
      case 23: { auto & a = w.pv.emplace_back(w.pr<val>()); auto & b = w.p0.emplace_back(w.pr<void>()); auto & d = w.pm.emplace_back(w.pr<mo>()); co_await await_as<F>(w, nm, [&]() { return cobalt::join(a, b, d); }); break; }
      case 24: { auto & a = w.p0.emplace_back(w.pr<void>()); auto & b = w.p0.emplace_back(w.pr<void>()); co_await await_as<F>(w, nm, [&]() { return cobalt::join(a, b); }); break; }
      case 25: { if (i) break; for (int k = 0; k < p.n; k++) w.vv.push_back(w.pr<val>()); co_await await_as<F>(w, nm, [&]() { return cobalt::join(w.vv); }); break; }
      case 26: { if (i) break; for (int k = 0; k < p.n; k++) w.v0.push_back(w.pr<void>()); co_await await_as<F>(w, nm, [&]() { return cobalt::join(w.v0); }); break; }
      case 27: case 28: case 29:
        if (!i) { w.wg.emplace(); for (int k = 0; k < p.n; k++) w.wg->push_back(w.pr<void>()); }
        if (p.kind == 27) co_await await_as<F>(w, nm, [&]() { return w.wg->wait(); });
        else if (p.kind == 28) co_await await_as<F>(w, nm, [&]() { return w.wg->wait_one(); });
        else co_await await_as<F>(w, nm, [&]() -> auto & { return *w.wg; });
        w.note("left " + std::to_string(w.wg->size())); break;
      case 30: co_await await_as<F>(w, nm, [&]() { return cobalt::with(1, [&w](int &) { return w.pr<void>(); }, [&w](int &&, std::exception_ptr ep) { w.note("teardown " + ep_name(ep)); return w.pr<void>(); }); }); break;
      case 31: co_await await_as<F>(w, nm, [&]() { return cobalt::with(1, [&w](int &) { return w.pr<val>(); }, [&w](int &&, std::exception_ptr ep) { w.note("teardown " + ep_name(ep)); return w.pr<void>(); }); }); break;
      case 32: { auto & l = w.leaf(); co_await await_as<F>(w, nm, [&]() { return generic<int, false>{&w, l.id, l.fail, l.gates == 0}; }); break; }
      case 33: { auto & l = w.leaf(); co_await await_as<F>(w, nm, [&]() { return generic<int, true>{&w, l.id, l.fail, l.gates == 0}; }); break; }
      case 34: { auto & l = w.leaf(); co_await await_as<F>(w, nm, [&]() { return generic<void, false>{&w, l.id, l.fail, l.gates == 0}; }); break; }
      case 35: { auto & l = w.leaf(); co_await await_as<F>(w, nm, [&]() { return generic<void, true>{&w, l.id, l.fail, l.gates == 0}; }); break; }
      case 36: { auto & l = w.leaf(); co_await await_as<F>(w, nm, [&]() { return generic<std::tuple<int, val>, false>{&w, l.id, l.fail, l.gates == 0}; }); break; }
      case 37: { auto & g = w.gate(); co_await await_as<F>(w, nm, [&]() -> auto & { return g; }); break; }
      case 38: { auto & a = w.gate(); auto & b = w.gate(); co_await await_as<F>(w, nm, [&]() { return cobalt::left_race(a, b); }); break; }
      case 39: { auto & a = w.gate(); auto & b = w.pv.emplace_back(w.pr<val>()); co_await await_as<F>(w, nm, [&]() { return cobalt::gather(a, b); }); break; }
    }
  }
  w.finished = true;
}

cobalt::detached feed(world & w, int what, int arg) // the other side of the channels
{
  switch (what)
  {
    case 0: if (w.cv) { auto r = co_await cobalt::as_result(w.cv->write(val(700 + arg))); w.note("other write " + std::to_string(r.has_error())); } if (w.cm) { auto r = co_await cobalt::as_result(w.cm->write(mo(700 + arg))); w.note("other write " + std::to_string(r.has_error())); } if (w.c0) { auto r = co_await cobalt::as_result(w.c0->write()); w.note("other write " + std::to_string(r.has_error())); } break;
    case 1: if (w.cv) { auto r = co_await cobalt::as_result(w.cv->read()); w.note("other read " + (r.has_error() ? r.error().message() : std::to_string(r->id))); } if (w.c0) { auto r = co_await cobalt::as_result(w.c0->read()); w.note("other read " + std::to_string(r.has_error())); } break;
  }
}

void run_form(Ctx & c, const plan_t & p, int form, report & out)
{
  {
    world w(c, p, form);
    auto ex = w.e.ctx.get_executor();
    if (p.kind == 11 || p.kind == 12) w.cv.emplace(p.capacity, ex);
    if (p.kind == 13 || p.kind == 14) w.c0.emplace(p.capacity, ex);
    if (p.kind == 15) w.cm.emplace(p.capacity, ex);
    for (int i = 0; i < p.prefill; i++) feed(w, 0, i);
    switch (form) { case 0: w.actor.emplace(actor<0>(w)); break; case 1: w.actor.emplace(actor<1>(w)); break; case 2: w.actor.emplace(actor<2>(w)); break; }
    for (auto & a : p.acts)
    {
      w.note("act " + std::to_string(a.what));
      switch (a.what)
      {
        case 0: { std::vector<Gate *> g; for (auto & x : w.gates) if (x.waiting()) g.push_back(&x); if (!g.empty()) { auto x = g[a.who % g.size()]; x->complete(a.arg % 4 == 0 ? error_code(1 + a.arg, boost::system::generic_category()) : error_code(), a.arg, a.arg % 3 == 0); } break; }
        case 1: w.e.step(1 + a.arg % 3); break;
        case 2: w.actor->cancel(static_cast<asio::cancellation_type>(1 << (a.arg % 3))); break;
        case 3: feed(w, 0, a.arg); break;
        case 4: feed(w, 1, a.arg); break;
        case 5: if (w.cv) w.cv->close(); if (w.c0) w.c0->close(); if (w.cm) w.cm->close(); break;
      }
      w.note(std::string("finished ") + (w.finished ? "1" : "0") + " gates " + std::to_string(w.gates.size()));
    }
    // everything completes
    w.all = true;
    for (int guard = 0; guard < 200; guard++)
    {
      w.e.settle();
      bool any = false;
      for (auto & g : w.gates) if (g.waiting()) { g.complete({}, 77); any = true; break; }
      if (!any && !w.finished && guard < 100 && (w.cv || w.c0 || w.cm)) { if (w.cv) w.cv->close(); if (w.c0) w.c0->close(); if (w.cm) w.cm->close(); any = true; }
      if (!any && !w.e.settle()) break;
    }
    PBT_CHECK(c, w.finished, kind_names[p.kind] << " never completed");
    std::string g;
    for (auto & x : w.gates) { g += "[" + std::to_string(x.ready_calls) + std::to_string(x.initiations) + std::to_string(x.completions); for (auto ct : x.cancels) g += " c" + std::to_string(int(ct)); g += "]"; }
    w.note("gates " + g);
    std::string st; for (auto & x : w.pv) st += x ? (x.ready() ? "r" : "w") : "-"; st += "/"; for (auto & x : w.p0) st += x ? (x.ready() ? "r" : "w") : "-"; st += "/"; for (auto & x : w.vv) st += x ? (x.ready() ? "r" : "w") : "-"; for (auto & x : w.v0) st += x ? (x.ready() ? "r" : "w") : "-";
    w.note("coroutines " + st);
    if (w.wg) w.note("group " + std::to_string(w.wg->size()));
    w.gv.reset(); w.gp.reset(); w.gm.reset(); w.t0.reset(); w.tv.reset(); w.tm.reset(); w.tn.reset(); w.actor.reset(); w.wg.reset();
    w.pv.clear(); w.p0.clear(); w.pm.clear(); w.pn.clear(); w.vv.clear(); w.v0.clear();
    w.e.settle();
    w.cv.reset(); w.c0.reset(); w.cm.reset();
    w.e.check_memory(c);
    out = std::move(w.r);
  }
  PBT_CHECK(c, Live::n == 0, "payloads alive: " << Live::n);
  Live::n = 0;
}

void property(Src & src, Ctx & c)
{
  plan_t p;
  p.kind = static_cast<int>(src.below(kinds)); p.n = static_cast<int>(src.below(4)); p.awaits = 1 + static_cast<int>(src.below(p.kind >= 8 && p.kind <= 15 ? 6 : 3)); p.capacity = static_cast<int>(src.below(3)); p.lvalue = src.flip();
  if (p.kind == 28 && p.n > 1) p.n = 1; // wait_one chooses randomly between promises that are ready
  p.prefill = p.kind >= 11 && p.kind <= 15 ? static_cast<int>(src.below(3)) : 0; p.seed = 1 + src.below(1000);
  p.misc = p.kind < 9 && src.chance(1, 4); if (p.misc && p.kind < 8) p.awaits = 1; if (p.misc) c.label("second awaiter");
  for (int i = 0, n = 4 + static_cast<int>(src.below(6)); i < n; i++) p.leaves.push_back({static_cast<int>(src.below(3)), src.chance(1, 3), 10 + i});
  for (int i = 0; i < 12; i++) { p.reactions.push_back(static_cast<int>(src.below(3))); p.readies.push_back(static_cast<int>(src.weighted({6, 1, 1}))); p.ecs.push_back(src.chance(1, 4) ? 1 + i : 0); }
  bool chan = p.kind >= 11 && p.kind <= 15, cancelled = false;
  for (int i = 0, n = static_cast<int>(src.below(10)); i < n; i++)
  {
    int what = static_cast<int>(src.weighted({8, 6, 2, chan ? 6u : 0u, chan ? 6u : 0u, chan ? 1u : 0u}));
    if (what == 2) cancelled = true;
    p.acts.push_back({what, static_cast<int>(src.below(6)), static_cast<int>(src.below(24))});
  }
  c.label(kind_names[p.kind]);
  report r[3];
  for (int f = 0; f < 3; f++) { c.log("--- ", kind_names[p.kind], f == 0 ? " plain" : f == 1 ? " as_result" : " as_tuple"); run_form(c, p, f, r[f]); if (c.failed) return; }
  bool err = false, value = false;
  for (auto & l : r[0].lines) { if (l.find(": error") != l.npos) err = true; if (l.find(": value") != l.npos) value = true; }
  if (err) c.label("failed"); if (value) c.label("succeeded"); if (cancelled) c.label("cancelled");
  if (err || !p.acts.empty()) c.mark_nontrivial();
  for (int f = 1; f < 3; f++)
    for (std::size_t i = 0; i < std::max(r[0].lines.size(), r[f].lines.size()); i++)
    {
      auto a = i < r[0].lines.size() ? r[0].lines[i] : "nothing", b = i < r[f].lines.size() ? r[f].lines[i] : "nothing";
      PBT_CHECK(c, a == b, kind_names[p.kind] << ": awaited plainly \"" << a << "\", through " << (f == 1 ? "as_result" : "as_tuple") << " \"" << b << "\"");
      if (c.failed) return;
    }
}

int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C12", {
    {"forms", "one of 40 kinds of awaitables of the library (and generic ones), scripted: its operations complete, fail or get cancelled in a random schedule; run once per form, reports and effects compared; non-trivial: an error was reported or the schedule had an effect", 250000, 12000000, property},
  });
}
