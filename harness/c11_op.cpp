// C11: awaiting an asynchronous operation.  Random operations - signature, how they are formed, when and how they complete -
// awaited in random ways; every operation is told apart, and the coroutine checks its own resumption.
#include "gate.hpp"
#include <boost/cobalt/error.hpp>
#include <boost/asio/any_completion_handler.hpp>
#include <boost/asio/append.hpp>
#include <boost/asio/bind_cancellation_slot.hpp>
#include <boost/asio/compose.hpp>
#include <boost/asio/deferred.hpp>
#include <boost/asio/defer.hpp>
using namespace env;
using pbt::Src; using pbt::Ctx;

enum class how { ready, immediate, stored, posted, foreign, steps, throws, throws_moved, dropped, throws_ready, n };
static const char * names[] = {"ready", "immediate", "stored", "posted", "foreign", "steps", "throws", "throws_moved", "dropped", "throws_ready"};

template<typename T> T make_arg(int id, bool fail)
{
  if constexpr (std::is_same_v<T, error_code>) return fail ? error_code(id + 1, boost::system::generic_category()) : error_code();
  else if constexpr (std::is_same_v<T, std::exception_ptr>) return fail ? std::make_exception_ptr(test_error(id)) : nullptr;
  else return T(id);
}
template<typename T> bool same_arg(const T & t, int id, bool fail)
{
  if constexpr (std::is_same_v<T, error_code>) return t == make_arg<T>(id, fail);
  else if constexpr (std::is_same_v<T, std::exception_ptr>) return ep_id(t) == (fail ? id : -1);
  else return id_of(t) == id;
}

struct shared_op // the scheduler's view of one awaited operation
{
  int id; how w; bool fail = false, in_init = false; int steps = 0, stepped = 0;
  int calls = 0, initiated = 0, readied = 0, resumed = 0;
  bool dropped = false, no_drop = false, in_other = false;
  std::function<bool(bool drop)> fire; // set while pending
  bool finish(bool drop) { auto f = std::move(fire); fire = nullptr; return f(drop); }
};

struct state
{
  Src & src; Ctx & c; Env & e;
  std::optional<asio::io_context> other{std::in_place, 1};
  std::deque<shared_op> ops; int alive = 0, in_init = 0, over = 0;
  state(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}
  std::size_t poll_other() { if (!other) return 0; other->restart(); return other->poll(); }
  std::vector<shared_op *> pending() { std::vector<shared_op *> r; for (auto & o : ops) if (o.fire) r.push_back(&o); return r; }
};

struct init_guard { state & s; shared_op & o; init_guard(state & s, shared_op & o) : s(s), o(o) { o.initiated++; o.in_init = true; s.in_init++; } ~init_guard() { o.in_init = false; s.in_init--; } };

// what an implementor of an asynchronous operation does with the handler
template<typename ... Args> struct implementor
{
  template<typename H> static void call(state & s, shared_op & o, H && h)
  {
    s.c.log("op ", o.id, " completes"); o.calls++;
    int id = o.id; bool f = o.fail;
    std::move(h)(make_arg<Args>(id, f)...);
  }
  template<typename H> static void start(state & s, shared_op & o, H h)
  {
    s.c.log("op ", o.id, " initiated: ", names[int(o.w)]);
    switch (o.w)
    {
      case how::immediate:
      {
        auto ex = asio::get_associated_immediate_executor(h, asio::get_associated_executor(h));
        asio::dispatch(ex, [&s, &o, h = std::move(h)]() mutable { call(s, o, std::move(h)); });
        break;
      }
      case how::posted:
      {
        auto ex = asio::get_associated_executor(h);
        if (o.id % 2) asio::post(ex, [&s, &o, h = std::move(h)]() mutable { call(s, o, std::move(h)); });
        else asio::defer(ex, [&s, &o, h = std::move(h)]() mutable { call(s, o, std::move(h)); });
        break;
      }
      case how::foreign: o.in_other = true; if (!s.other) s.other.emplace(1);
      asio::post(*s.other, [&s, &o, h = std::move(h)]() mutable
      {
        o.in_other = false;
        auto ex = asio::get_associated_executor(h);
        asio::post(ex, [&s, &o, h = std::move(h)]() mutable { call(s, o, std::move(h)); });
      }); break;
      case how::steps: step(s, o, std::move(h)); break;
      case how::throws: throw test_error(1000 + o.id);
      case how::throws_moved: { auto h2 = std::move(h); (void)h2; throw test_error(1000 + o.id); }
      case how::dropped: o.dropped = true; { auto h2 = std::move(h); } break;
      default: store(s, o, std::move(h)); break;
    }
  }
  // a composed operation: some steps complete at once, some later
  template<typename H> static void step(state & s, shared_op & o, H h)
  {
    if (o.stepped == o.steps)
    {
      auto ex = asio::get_associated_executor(h);
      if (!o.in_init) { call(s, o, std::move(h)); return; }
      switch (o.id % 3)
      {
        case 0: { auto ie = asio::get_associated_immediate_executor(h, asio::get_associated_executor(h)); asio::dispatch(ie, [&s, &o, h = std::move(h)]() mutable { call(s, o, std::move(h)); }); break; }
        case 1: asio::post(ex, [&s, &o, h = std::move(h)]() mutable { call(s, o, std::move(h)); }); break;
        case 2: store(s, o, std::move(h)); break;
      }
      return;
    }
    o.stepped++;
    bool imm = (o.id >> (o.stepped % 4)) & 1;
    auto ex = asio::get_associated_executor(h);
    if (imm)
    {
      auto ie = asio::get_associated_immediate_executor(h, asio::get_associated_executor(h));
      asio::dispatch(ie, [&s, &o, h = std::move(h)]() mutable { step_call(s, o, std::move(h)); });
    }
    else asio::post(ex, [&s, &o, h = std::move(h)]() mutable { step(s, o, std::move(h)); });
  }
  // inside a function run by the immediate executor
  template<typename H> static void step_call(state & s, shared_op & o, H h)
  {
    if (o.stepped == o.steps) call(s, o, std::move(h)); // we're in the immediate executor here
    else step(s, o, std::move(h));
  }
  template<typename H> static void store(state & s, shared_op & o, H h)
  {
    auto slot = asio::get_associated_cancellation_slot(h);
    auto p = std::make_shared<std::optional<H>>(std::move(h));
    o.fire = [&s, &o, p](bool drop) mutable
    {
      auto q = std::move(p);
      H h = std::move(**q); q->reset(); q.reset();
      if (drop) { o.dropped = true; s.c.log("op ", o.id, " dropped"); return true; }
      H h2 = std::move(h);
      call(s, o, std::move(h2));
      return true;
    };
    (void)slot;
  }
};

// ---- the forms of an operation
template<typename ... Args> struct user_op final : cobalt::op<Args...>
{
  state & s; shared_op * o; int wrap;
  user_op(state & s, shared_op & o, int wrap) : s(s), o(&o), wrap(wrap) {}
  void ready(cobalt::handler<Args...> h) override
  {
    o->readied++;
    if (o->w == how::ready) { o->calls++; h(make_arg<Args>(o->id, o->fail)...); }
    if (o->w == how::throws_ready) throw test_error(1000 + o->id);
  }
  void initiate(cobalt::completion_handler<Args...> h) override
  {
    init_guard g{s, *o};
    using impl = implementor<Args...>;
    switch (wrap)
    {
      case 1: o->no_drop = true; /* KNOWN_FINDINGS: it can't be dropped later */ impl::start(s, *o, asio::bind_executor(s.e.ctx.get_executor(), asio::any_completion_handler<void(Args...)>(std::move(h)))); break;
      case 2: { auto ex = h.get_executor(); impl::start(s, *o, asio::bind_executor(ex, std::move(h))); break; }
      case 3: impl::start(s, *o, asio::bind_cancellation_slot(asio::cancellation_slot(), std::move(h))); break;
      default: impl::start(s, *o, std::move(h));
    }
  }
};
template<typename ... Args, typename Token> auto initiate_with(state & s, shared_op & o, Token && tk)
{
  return asio::async_initiate<Token, void(Args...)>(
    [&s, &o](auto h, mo extra)
    {
      init_guard g{s, o};
      PBT_CHECK(s.c, extra.heap && *extra.heap == o.id, "an argument of the initiation was lost");
      implementor<Args...>::start(s, o, std::move(h));
    }, tk, mo(o.id));
}

struct frame { state & s; int & n; frame(state & s, int & n) : s(s), n(n) { s.alive++; n++; } ~frame() { s.alive--; n--; } };

template<typename ... Args> struct awaiting
{
  using tup = std::tuple<Args...>;
  static constexpr bool has_error = []{ if constexpr (sizeof...(Args) == 0) return false; else return cobalt::detail::result_error<std::tuple_element_t<0, tup>>; }();
  static void check_all(state & s, shared_op & o, const tup & t)
  {
    std::apply([&](auto & ... a) { bool ok = (same_arg(a, o.id, o.fail) && ...); PBT_CHECK(s.c, ok, "operation " << o.id << ": the completion's arguments were changed"); }, t);
  }
  static void check_resumed(state & s, shared_op & o)
  {
    o.resumed++;
    s.c.log("op ", o.id, " resumes");
    PBT_CHECK(s.c, !o.in_init, "the awaiter of " << o.id << " was resumed from inside the initiation");
    PBT_CHECK(s.c, o.resumed == 1, "operation " << o.id << " resumed its awaiter twice");
    PBT_CHECK(s.c, !o.dropped, "operation " << o.id << " was dropped, and resumed");
  }
  static bool throwing(shared_op & o) { return o.w == how::throws || o.w == how::throws_moved || o.w == how::throws_ready; }
  static void check_calls(state & s, shared_op & o)
  {
    PBT_CHECK(s.c, o.calls == (throwing(o) ? 0 : 1), "operation " << o.id << " resumed after " << o.calls << " completions");
    PBT_CHECK(s.c, o.initiated <= 1 && o.readied <= 1);
    if (o.w == how::ready) PBT_CHECK(s.c, o.initiated == 0, "a ready operation was initiated");
  }
  template<typename R> static void check_value(state & s, shared_op & o, R && r) // what a throwing await returned
  {
    PBT_CHECK(s.c, !(has_error && o.fail), "the error of operation " << o.id << " wasn't thrown");
    constexpr std::size_t n = sizeof...(Args) - (has_error ? 1 : 0);
    static_assert(n > 0);
    if constexpr (n == 1) PBT_CHECK(s.c, same_arg(r, o.id, o.fail), "operation " << o.id << ": wrong value");
    else std::apply([&](auto & ... a) { bool ok = (same_arg(a, o.id, o.fail) && ...); PBT_CHECK(s.c, ok, "operation " << o.id << ": wrong values"); }, r);
  }
  static void check_thrown(state & s, shared_op & o, std::exception_ptr e)
  {
    if (throwing(o)) { PBT_CHECK(s.c, ep_id(e) == 1000 + o.id, "operation " << o.id << " threw " << ep_name(e) << " rather than the initiation's exception"); return; }
    PBT_CHECK(s.c, has_error && o.fail, "operation " << o.id << " threw " << ep_name(e));
    if constexpr (has_error)
    {
      if constexpr (std::is_same_v<std::tuple_element_t<0, tup>, error_code>) PBT_CHECK(s.c, ep_code(e) == make_arg<error_code>(o.id, true), "operation " << o.id << " threw " << ep_name(e));
      else PBT_CHECK(s.c, ep_id(e) == o.id, "operation " << o.id << " threw " << ep_name(e));
    }
  }
  // awaits what mk() gives, once, in one of the three forms
  template<typename Coro, typename Mk> static Coro await_it(state & s, shared_op & o, int form, Mk mk, int & frames)
  {
    frame f{s, frames};
    std::exception_ptr ep; bool done = false;
    try
    {
      constexpr bool wrappable = requires {cobalt::as_tuple(mk());};
      if constexpr (wrappable) { if (form == 1)
      {
        auto r = co_await cobalt::as_result(mk());
        done = true; check_resumed(s, o);
        if constexpr (has_error)
        {
          PBT_CHECK(s.c, r.has_error() == o.fail, "as_result of " << o.id << " " << r.has_error());
          if (r.has_error()) { PBT_CHECK(s.c, same_arg(r.error(), o.id, o.fail)); }
          else if constexpr (sizeof...(Args) > 1) check_value(s, o, *r);
        }
        else { PBT_CHECK(s.c, r.has_value()); if constexpr (sizeof...(Args) > 0) check_value(s, o, *r); }
      }
      else if (form == 2)
      {
        auto r = co_await cobalt::as_tuple(mk());
        done = true; check_resumed(s, o);
        static_assert(std::is_same_v<decltype(r), tup>);
        check_all(s, o, r);
      } }
      if (!wrappable || form == 0)
      {
        if constexpr (sizeof...(Args) - (has_error ? 1 : 0) == 0)
        {
          co_await mk();
          done = true; check_resumed(s, o);
          PBT_CHECK(s.c, !(has_error && o.fail), "the error of operation " << o.id << " wasn't thrown");
        }
        else { auto r = co_await mk(); done = true; check_resumed(s, o); check_value(s, o, r); }
      }
    }
    catch (...) { ep = std::current_exception(); }
    if (!done) { check_resumed(s, o); check_thrown(s, o, ep); }
    else PBT_CHECK(s.c, !throwing(o), "the exception of the initiation of " << o.id << " was lost");
    check_calls(s, o);
    co_return;
  }
};

// the awaiting coroutines: awaited by nobody (detached, promise), or through another one (task, generator)
template<typename Coro> struct one { using type = Coro; };
using gen_t = cobalt::generator<int>;

struct runner
{
  state & s; Src & src; std::deque<int> frames;
  std::deque<cobalt::promise<void>> promises;
  runner(state & s) : s(s), src(s.src) {}

  template<typename Aw, typename Mk> cobalt::detached via_task(shared_op & o, int form, Mk mk, int & frames)
  {
    frame f{s, frames};
    co_await Aw::template await_it<cobalt::task<void>>(s, o, form, mk, frames);
    s.over++;
  }
  template<typename Aw, typename Mk> cobalt::detached via_promise(shared_op & o, int form, Mk mk, int & frames)
  {
    frame f{s, frames};
    auto p = Aw::template await_it<cobalt::promise<void>>(s, o, form, mk, frames);
    bool gone = o.dropped; // before it's awaited, so there is an awaiter to tell
    try { co_await p; PBT_CHECK(s.c, !gone, "awaiting a promise whose coroutine is gone returned"); }
    catch (boost::system::system_error & se) { PBT_CHECK(s.c, gone && se.code() == cobalt::error::completed_unexpected, "awaiting the promise threw " << se.code().message()); }
    s.over++;
  }
  // several awaits of several operations in one coroutine
  template<typename Aw, typename Mk> void go(shared_op & o, int coro, int form, Mk mk)
  {
    auto & fr = frames.emplace_back(0);
    switch (coro)
    {
      case 0: Aw::template await_it<cobalt::detached>(s, o, form, mk, fr); break;
      case 1: via_task<Aw>(o, form, mk, fr); break;
      case 2: via_promise<Aw>(o, form, mk, fr); break;
      case 3: promises.push_back(Aw::template await_it<cobalt::promise<void>>(s, o, form, mk, fr)); break;
    }
    fr_of[&o] = &fr;
  }
  std::map<shared_op *, int *> fr_of;

  template<typename ... Args> void start(how w, bool fail)
  {
    auto & o = s.ops.emplace_back(); o.id = static_cast<int>(s.ops.size()) * 7 % 64; o.w = w; o.fail = fail; o.steps = 1 + static_cast<int>(src.below(4));
    int coro = static_cast<int>(src.below(4)), form = static_cast<int>(src.below(3)), kind = static_cast<int>(src.below(w == how::ready || w == how::throws_ready ? 1 : 4)), wrap = static_cast<int>(src.below(w == how::throws || w == how::throws_moved ? 1 : 4));
    s.c.log("await op ", o.id, " ", names[int(w)], " fail=", fail, " coroutine ", coro, " form ", form, " kind ", kind, " wrap ", wrap);
    using aw = awaiting<Args...>;
    auto & S = s;
    switch (kind)
    {
      case 0: go<aw>(o, coro, form, [&S, &o, wrap]{ return user_op<Args...>(S, o, wrap); }); break;
      case 1: go<aw>(o, coro, form, [&S, &o]{ return initiate_with<Args...>(S, o, cobalt::use_op); }); break;
      case 2: if (form) { go<aw>(o, coro, form, [&S, &o]{ return initiate_with<Args...>(S, o, cobalt::use_op); }); break; }
              go<aw>(o, coro, 0, [&S, &o]{ return initiate_with<Args...>(S, o, asio::deferred); }); break;
      case 3: go<aw>(o, coro, form, [&S, &o]{ return asio::async_compose<const cobalt::use_op_t &, void(Args...)>(composed<Args...>{S, o}, cobalt::use_op); }); break;
    }
  }
  template<typename ... Args> struct composed
  {
    state & s; shared_op & o; bool first = true;
    template<typename Self> void operator()(Self & self)
    {
      if (first) { first = false; init_guard g{s, o}; implementor<Args...>::start(s, o, hold<Self>{std::move(self)}); }
    }
    template<typename Self> struct hold
    {
      Self self;
      using executor_type = asio::associated_executor_t<Self>; executor_type get_executor() const noexcept { return asio::get_associated_executor(self); }
      using immediate_executor_type = asio::associated_immediate_executor_t<Self, executor_type>; immediate_executor_type get_immediate_executor() const noexcept { return asio::get_associated_immediate_executor(self, asio::get_associated_executor(self)); }
      using cancellation_slot_type = asio::associated_cancellation_slot_t<Self>; cancellation_slot_type get_cancellation_slot() const noexcept { return asio::get_associated_cancellation_slot(self); }
      using allocator_type = asio::associated_allocator_t<Self>; allocator_type get_allocator() const noexcept { return asio::get_associated_allocator(self); }
      void operator()(Args ... a) { self.complete(std::move(a)...); }
    };
  };

  // the same operation object, awaited several times
  cobalt::detached repeat(int times, int & frames)
  {
    frame f{s, frames};
    s.ops.emplace_back();
    user_op<error_code, int> op(s, s.ops.back(), static_cast<int>(src.below(4)));
    for (int i = 0; i < times; i++)
    {
      auto & o = i ? s.ops.emplace_back() : s.ops.back();
      o.id = static_cast<int>(s.ops.size()) * 7 % 64; o.w = src.flip() ? how::stored : static_cast<how>(src.below(6)); o.fail = src.chance(1, 3); o.steps = 1 + static_cast<int>(src.below(4));
      op.o = &o; fr_of[&o] = &frames;
      int form = static_cast<int>(src.below(3));
      s.c.log("await op ", o.id, " (again ", i, ") ", names[int(o.w)], " form ", form);
      co_await awaiting<error_code, int>::await_it<cobalt::task<void>>(s, o, form, [&op]() -> user_op<error_code, int> & { return op; }, frames);
    }
    s.over++;
  }
};

void property(Src & src, Ctx & c)
{
  Env e;
  {
    state s(src, c, e); runner r(s);
    int n = 1 + static_cast<int>(src.below(7)); unsigned kinds = 0; bool interesting = false;
    auto fire = [&](bool drop)
    {
      auto p = s.pending(); if (p.empty()) return false;
      auto o = p[src.below(static_cast<std::uint32_t>(p.size()))];
      auto * fr = r.fr_of[o]; int before = o->resumed;
      c.log(drop ? "drop " : "fire ", o->id);
      if (o->no_drop) drop = false;
      if (drop && src.flip()) { // while some exception is being handled
        struct dtor { std::function<bool(bool)> f; ~dtor() { f(true); } };
        try { dtor d{[o](bool dr){ return o->finish(dr); }}; throw 1; } catch (int) {}
        c.label("dropped while unwinding");
      }
      else o->finish(drop);
      if (drop) { PBT_CHECK(c, o->resumed == before, "resumed though dropped"); PBT_CHECK(c, *fr == 0, "the coroutine awaiting " << o->id << " wasn't destroyed"); c.label("dropped later"); interesting = true; }
      else { PBT_CHECK(c, o->resumed == 1, "completing " << o->id << " didn't resume its awaiter"); c.label("completed later"); }
      return true;
    };
    for (int i = 0; i < n; i++)
    {
      auto act = src.weighted({10, 4, 2, 3, 3, 1});
      if (act == 5) // a context with pending operations goes away
      {
        std::vector<shared_op *> gone; for (auto & o : s.ops) if (o.in_other && !o.no_drop) { gone.push_back(&o); } else if (o.in_other) { gone.clear(); break; }
        if (gone.empty()) continue;
        c.label("context destroyed"); c.log("the other context is destroyed"); interesting = true;
        for (auto o : gone) o->dropped = true;
        s.other.reset();
        for (auto o : gone) PBT_CHECK(c, *r.fr_of[o] == 0, "the coroutine awaiting " << o->id << " wasn't destroyed with the context");
        continue;
      }
      if (act == 1) { fire(false); continue; }
      if (act == 2) { fire(src.chance(1, 2)); continue; }
      if (act == 3) { s.poll_other(); e.step(1 + src.below(3)); continue; }
      if (act == 4) { c.label("same op again"); r.repeat(1 + static_cast<int>(src.below(4)), r.frames.emplace_back(0)); continue; }
      auto w = static_cast<how>(src.weighted({2, 4, 5, 3, 3, 5, 2, 2, 2, 1})); bool fail = src.chance(1, 3);
      c.label(names[int(w)]); kinds |= 1u << int(w);
      auto before = s.ops.size();
      auto go = [&]
      {
        switch (src.below(9))
        {
          case 0: r.start<>(w, fail); break;
          case 1: r.start<int>(w, fail); break;
          case 2: r.start<error_code>(w, fail); break;
          case 3: r.start<error_code, int>(w, fail); break;
          case 4: r.start<error_code, val, mo>(w, fail); break;
          case 5: r.start<std::exception_ptr>(w, fail); break;
          case 6: r.start<std::exception_ptr, mo>(w, fail); break;
          case 7: r.start<val, int>(w, fail); break;
          case 8: r.start<std::exception_ptr, nodef, int>(w, fail); break;
        }
      };
      if (src.chance(1, 8)) { c.label("awaited while unwinding"); struct dtor { std::function<void()> f; ~dtor() { f(); } }; try { dtor d{go}; throw 1; } catch (int) {} }
      else go();
      auto & o = s.ops[before];
      PBT_CHECK(c, o.initiated + o.readied > 0, "never initiated");
      bool at_once = w == how::ready || w == how::immediate || w == how::throws || w == how::throws_moved || w == how::throws_ready;
      if (at_once) PBT_CHECK(c, o.resumed == 1, "operation " << o.id << " (" << names[int(w)] << ") didn't continue at once");
      if (w == how::dropped) { PBT_CHECK(c, o.resumed == 0, "a dropped operation resumed"); PBT_CHECK(c, *r.fr_of[&o] == 0, "a handler dropped during initiation didn't destroy the coroutine"); }
      if (w == how::stored || w == how::posted || w == how::foreign) PBT_CHECK(c, o.resumed == 0, "resumed before completion");
    }
    // everything left completes or is dropped
    for (int guard = 0; guard < 1000; guard++)
    {
      auto k = s.poll_other(); k += e.settle();
      if (fire(src.chance(1, 5))) continue;
      if (!k) break;
    }
    for (auto & o : s.ops)
    {
      if (o.dropped) PBT_CHECK(c, o.resumed == 0, "dropped and resumed");
      else if (o.initiated || o.readied) PBT_CHECK(c, o.resumed == 1, "operation " << o.id << " resumed its awaiter " << o.resumed << " times");
    }
    PBT_CHECK(c, s.alive == 0, s.alive << " coroutine(s) left");
    if (__builtin_popcount(kinds) >= 2 && (interesting || n > 2)) c.mark_nontrivial();
    r.promises.clear();
  }
  e.check_memory(c);
  PBT_CHECK(c, Live::n == 0, "payloads alive: " << Live::n);
  Live::n = 0;
}

// a coroutine awaiting many operations in sequence: completions that come at once, over and over, don't nest
void sequence(Src & src, Ctx & c)
{
  Env e;
  {
    state s(src, c, e); runner r(s); int frames = 0;
    int total = 2 + static_cast<int>(src.below(12)); unsigned seen = 0;
    std::vector<how> plan; for (int i = 0; i < total; i++) { plan.push_back(static_cast<how>(src.weighted({2, 5, 3, 2, 2, 5, 1, 1}))); seen |= 1u << int(plan.back()); }
    auto body = [&]() -> cobalt::detached
    {
      frame f{s, frames};
      for (auto w : plan)
      {
        auto & o = s.ops.emplace_back(); o.id = static_cast<int>(s.ops.size()) * 5 % 64; o.w = w; o.fail = src.chance(1, 3); o.steps = 1 + static_cast<int>(src.below(5)); r.fr_of[&o] = &frames;
        auto & S = s; int form = static_cast<int>(src.below(3));
        if (src.flip()) { int wrap = static_cast<int>(src.below(4)); if (w == how::throws || w == how::throws_moved) wrap = 0; co_await awaiting<error_code, int>::await_it<cobalt::task<void>>(s, o, form, [&S, &o, wrap]{ return user_op<error_code, int>(S, o, wrap); }, frames); }
        else { if (o.w == how::ready) o.w = how::immediate; co_await awaiting<val, int>::await_it<cobalt::task<void>>(s, o, form, [&S, &o]{ return initiate_with<val, int>(S, o, cobalt::use_op); }, frames); }
      }
      s.over++;
    };
    body();
    for (int guard = 0; guard < 1000; guard++)
    {
      auto k = s.poll_other(); k += e.settle();
      auto p = s.pending();
      if (!p.empty()) { PBT_CHECK(c, p.size() == 1); auto o = p[0]; o->finish(false); PBT_CHECK(c, o->resumed == 1); continue; }
      if (!k) break;
    }
    PBT_CHECK(c, s.over == 1 && frames == 0 && static_cast<int>(s.ops.size()) == total, "the coroutine got through " << s.ops.size() << " of " << total << " operations");
    if (__builtin_popcount(seen) >= 2) c.mark_nontrivial();
  }
  e.check_memory(c);
  PBT_CHECK(c, Live::n == 0, "payloads alive: " << Live::n);
  Live::n = 0;
}

int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C11", {
    {"ops", "1-7 operations of nine signatures, each a user-defined op (bare or wrapped handler), use_op, deferred or async_compose, awaited plainly, as_result or as_tuple by a detached, promise or task; they complete in ready, through the immediate executor, later, posted, via another context, in several steps, or throw or drop the handler; non-trivial: two or more ways of completing", 600000, 20000000, property},
    {"sequence", "one coroutine awaiting 2-13 operations that complete in random ways one after the other; non-trivial: two or more ways", 300000, 10000000, sequence},
  });
}
