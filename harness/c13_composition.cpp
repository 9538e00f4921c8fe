// C13: operations implemented by coroutines.  Random bodies (which may await further composed operations), awaited in random ways,
// cancelled and abandoned at random points.
#include "gate.hpp"
#include <boost/cobalt/composition.hpp>
#include <boost/asio/deferred.hpp>
using namespace env;
using pbt::Src; using pbt::Ctx;

struct script { int steps = 0; bool big = false, fail = false; int id = 0; };

struct world
{
  Src & src; Ctx & c; Env & e; checked_resource special;
  std::deque<Gate> gates; int frames = 0, in_init = 0, resumed = 0, started = 0, depth = 0, nested = 0; bool all_ready = false, dropping = false;
  Gate * pending = nullptr; std::vector<int> want; // what the pending operation should have been told
  std::vector<int *> active; // the cancellation each running composition should see
  int awaiter_cancelled = 0;
  world(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}
  Gate & gate()
  {
    auto & g = gates.emplace_back(e, int(gates.size())); g.imm_val = 10 + g.id; g.reaction = static_cast<on_cancel>(src.below(3));
    switch (all_ready ? 1 : src.weighted({5, 1, 2})) { case 1: g.immediate_ready = true; break; case 2: g.immediate_init = true; break; }
    if (!all_ready && src.chance(1, 4)) g.imm_ec = error_code(1 + g.id, boost::system::generic_category());
    return g;
  }
};
struct guard { world & w; int & seen; guard(world & w, int & s) : w(w), seen(s) { w.frames++; w.active.push_back(&seen); } ~guard() { w.frames--; w.active.pop_back(); } };
template<typename T> T make(int id, bool fail)
{
  if constexpr (std::is_same_v<T, error_code>) return fail ? error_code(id + 1, boost::system::generic_category()) : error_code();
  else if constexpr (std::is_same_v<T, std::exception_ptr>) return fail ? std::make_exception_ptr(test_error(id)) : nullptr;
  else return T(id);
}
template<typename T> bool same(const T & t, int id, bool fail)
{
  if constexpr (std::is_same_v<T, error_code>) return t == make<T>(id, fail);
  else if constexpr (std::is_same_v<T, std::exception_ptr>) return ep_id(t) == (fail ? id : -1);
  else return id_of(t) == id;
}
#define BODY_STEP                                                                                                                     \
  switch (w.src.weighted({5, 3, 2, 2, w.nested < 6 && depth < 3 ? 3u : 0u, 2, 1}))                                                                \
  {                                                                                                                                   \
    case 0: case 1:                                                                                                                   \
    {                                                                                                                                 \
      auto & g = w.gate(); std::optional<std::pair<error_code, int>> done; g.on_complete = [&](error_code ec, int v) { done = {ec, v}; w.pending = nullptr; };  \
      w.pending = g.immediate_ready || g.immediate_init ? nullptr : &g; w.want.clear();                                               \
      auto [ec, v] = co_await g;                                                                                                      \
      PBT_CHECK(w.c, done && ec == done->first && v == done->second, "operation " << g.id << " inside a composed one reported " << ec.message() << ", " << v); \
      break;                                                                                                                          \
    }                                                                                                                                 \
    case 2: { auto ex = co_await cobalt::this_coro::executor; std::tuple<> t = co_await asio::post(ex, cobalt::use_op); (void)t; break; }                 \
    case 3: { auto ex = co_await cobalt::this_coro::executor; std::tuple<> t = co_await asio::post(ex, asio::deferred); (void)t;                         \
              PBT_CHECK(w.c, ex == cobalt::executor(w.e.ctx.get_executor()), "the composed operation has another executor"); break; } \
    case 4:                                                                                                                           \
    {                                                                                                                                 \
      w.nested++; w.c.label("nested");                                                                                                \
      script in{static_cast<int>(w.src.below(4)), w.src.chance(1, 4), w.src.flip(), 300 + w.nested};                                  \
      auto r = co_await nested_op(w, in, depth + 1);                                                                                  \
      bool ok = same(std::get<0>(r), in.id, in.fail) && same(std::get<1>(r), in.id, in.fail);                                         \
      PBT_CHECK(w.c, ok, "a nested composed operation reported something else");                                                      \
      break;                                                                                                                          \
    }                                                                                                                                 \
    case 5:                                                                                                                           \
    {                                                                                                                                 \
      auto ct = co_await cobalt::this_coro::cancelled;                                                                                \
      PBT_CHECK(w.c, int(ct) == seen, "a composed operation sees cancellation " << int(ct) << ", should " << seen);                   \
      break;                                                                                                                          \
    }                                                                                                                                 \
    case 6: seen = 0; co_await cobalt::this_coro::reset_cancellation_state(asio::enable_total_cancellation()); break;                \
  }

struct nested_op final : cobalt::op<std::exception_ptr, mo>
{
  world & w; script s; int depth;
  nested_op(world & w, script s, int depth) : w(w), s(s), depth(depth) {}
  void initiate(cobalt::completion_handler<std::exception_ptr, mo>) override;
};
void nested_op::initiate(cobalt::completion_handler<std::exception_ptr, mo>)
{
  int seen = 0; guard gd(w, seen); auto & w = this->w; auto s = this->s; auto depth = this->depth;
  for (int i = 0; i < s.steps; i++) { BODY_STEP }
  co_return {make<std::exception_ptr>(s.id, s.fail), mo(s.id)};
}

template<typename ... Args> struct outer_op final : cobalt::op<Args...>
{
  world & w; script s; int how;
  outer_op(world & w, script s, int how) : w(w), s(s), how(how) {}
  struct init { world & w; init(world & w) : w(w) { w.in_init++; w.started++; } ~init() { w.in_init--; } };
  void initiate(cobalt::completion_handler<Args...> h) override
  {
    init i{w};
    switch (how)
    {
      case 0: small(w, s, std::move(h)); break;
      case 1: big(w, s, std::move(h)); break;
      case 2: member(std::move(h)); break;
      case 3: { auto ex = asio::get_associated_immediate_executor(h, h.get_executor()); asio::dispatch(ex, [this, h = std::move(h)]() mutable { small(w, s, std::move(h)); }); break; } // as part of something composed
      case 4: { auto ex = h.get_executor(); asio::post(ex, [this, h = std::move(h)]() mutable { member(std::move(h)); }); break; }
    }
  }
  void member(cobalt::completion_handler<Args...>)
  {
    int seen = 0; guard gd(w, seen); auto & w = this->w; auto s = this->s; constexpr int depth = 0;
    for (int i = 0; i < s.steps; i++) { BODY_STEP }
    co_return std::tuple<Args...>{make<Args>(s.id, s.fail)...};
  }
  static void small(world & w, script s, cobalt::completion_handler<Args...>)
  {
    int seen = 0; guard gd(w, seen); constexpr int depth = 0;
    for (int i = 0; i < s.steps; i++) { BODY_STEP }
    co_return std::tuple<Args...>{make<Args>(s.id, s.fail)...};
  }
  static void big(world & w, script s, cobalt::completion_handler<Args...>) // too large for the buffer of the awaiter
  {
    int seen = 0; guard gd(w, seen); constexpr int depth = 0;
    char memory[6000]; std::memset(memory, s.id & 127, sizeof(memory));
    for (int i = 0; i < s.steps; i++) { BODY_STEP }
    for (char x : memory) PBT_CHECK(w.c, x == (s.id & 127), "the frame was overwritten");
    co_return std::tuple<Args...>{make<Args>(s.id, s.fail)...};
  }
};
// gives the handler another allocator
template<typename Op> struct with_resource
{
  Op op; env::checked_resource * res;
  auto operator co_await() { return op.operator co_await().replace_resource(res); }
};

struct own { world & w; int & alive; own(world & w, int & a) : w(w), alive(a) { alive++; } ~own() { alive--; } };

template<typename ... Args> cobalt::promise<void> awaiter(world & w, int times, int & alive)
{
  own o{w, alive};
  co_await cobalt::this_coro::throw_if_cancelled(false);
  for (int i = 0; i < times; i++)
  {
    script s{static_cast<int>(w.src.below(6)), false, w.src.chance(1, 3), 50 + i}; int how = static_cast<int>(w.src.below(5)); bool special = w.src.chance(1, 3);
    w.c.log("await composed ", i, ": ", s.steps, " steps, how ", how, special ? ", special allocator" : "");
    if (how == 1) w.c.label("big frame"); if (how == 3) w.c.label("inside an immediate completion"); if (special) w.c.label("special allocator");
    auto frames = w.frames, started = w.started; w.pending = nullptr; w.want.clear(); w.special.allocs = 0;
    outer_op<Args...> op(w, s, how);
    std::optional<std::tuple<Args...>> r;
    if (special) { with_resource<outer_op<Args...> &> sp{op, &w.special}; auto t = co_await cobalt::as_tuple(sp); r.emplace(std::move(t)); PBT_CHECK(w.c, w.special.allocs > 0, "the frame didn't come from the handler's allocator"); }
    else { auto t = co_await cobalt::as_tuple(op); r.emplace(std::move(t)); }
    w.pending = nullptr;
    w.resumed++;
    w.c.log("resumed ", i);
    PBT_CHECK(w.c, w.in_init == 0, "resumed from inside the initiation");
    PBT_CHECK(w.c, w.started == started + 1 && w.frames == frames, "resumed while " << w.frames - frames << " frames of the operation are alive");
    PBT_CHECK(w.c, w.special.live.empty(), "resumed before the operation gave its memory back");
    std::apply([&](auto & ... a) { bool ok = (same(a, s.id, s.fail) && ...); PBT_CHECK(w.c, ok, "the awaiter got something else than was returned"); }, *r);
  }
}

void property(Src & src, Ctx & c)
{
  Env e;
  {
    world w(src, c, e); int alive = 0, cancels = 0; bool dropped = false;
    int times = 1 + static_cast<int>(src.below(4));
    std::optional<cobalt::promise<void>> p;
    switch (src.below(4))
    {
      case 0: p.emplace(awaiter<error_code, int>(w, times, alive)); break;
      case 1: p.emplace(awaiter<std::exception_ptr, mo>(w, times, alive)); break;
      case 2: p.emplace(awaiter<val, int>(w, times, alive)); break;
      case 3: p.emplace(awaiter<>(w, times, alive)); break;
    }
    auto waiting = [&]() -> Gate * { for (auto & g : w.gates) if (g.waiting()) return &g; return nullptr; };
    auto check = [&]
    {
      if (auto g = w.pending; g && g->waiting())
      {
        PBT_CHECK(c, g->cancels.size() == w.want.size(), "the operation awaited by the composed one was told " << g->cancels.size() << " times, should " << w.want.size());
        for (std::size_t i = 0; i < w.want.size() && i < g->cancels.size(); i++) PBT_CHECK(c, int(g->cancels[i]) == w.want[i]);
      }
    };
    int n = static_cast<int>(src.below(14));
    for (int i = 0; i < n && alive; i++)
    {
      switch (src.weighted({6, 5, 4, 1}))
      {
        case 0: if (auto g = waiting()) { c.log("complete ", g->id); g->complete(src.chance(1, 3) ? error_code(5, boost::system::generic_category()) : error_code(), 7, src.flip()); } break;
        case 1: e.step(1 + src.below(4)); break;
        case 2:
        {
          if (!alive) break;
          int t = 1 << src.below(3);
          auto g = waiting();
          if (!g) break; // otherwise nobody is told now
          c.log("cancel ", t); cancels++; c.label("cancelled");
          for (auto a : w.active) *a = t;
          if (w.pending == g) { auto before = g->cancels.size(); p->cancel(static_cast<asio::cancellation_type>(t)); PBT_CHECK(c, g->cancels.size() == before + 1 && int(g->cancels.back()) == t, "cancelling the awaiter of a composed operation didn't reach operation " << g->id); if (g->waiting()) w.want.push_back(t); }
          break;
        }
        case 3: if (auto g = waiting(); g && src.chance(1, 2))
        {
          c.log("drop ", g->id); c.label("dropped");
          g->drop(); dropped = true;
          PBT_CHECK(c, w.frames == 0 && alive == 0, "abandoning the operation inside a composed one left " << w.frames << " frames and " << alive << " awaiters");
        }
        break;
      }
      check();
    }
    w.all_ready = true;
    for (int guard = 0; guard < 300; guard++)
    {
      auto k = e.settle();
      if (auto g = waiting()) { g->complete({}, 1); continue; }
      if (!k) break;
    }
    PBT_CHECK(c, alive == 0 && w.frames == 0, "never completed");
    PBT_CHECK(c, dropped ? w.resumed < times : w.resumed == times, "resumed " << w.resumed << " of " << times << " times");
    PBT_CHECK(c, w.special.bad == 0 && w.special.live.empty(), w.special.what);
    if (w.gates.size() >= 2 && (cancels || dropped || w.nested || times > 1)) c.mark_nontrivial();
    p.reset();
  }
  e.check_memory(c);
  PBT_CHECK(c, Live::n == 0, "payloads alive: " << Live::n);
  Live::n = 0;
}

int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C13", {
    {"composed", "1-4 composed operations (four signatures, small and large frames, free and member functions, started from inside an immediate completion, with a special allocator) with random bodies nesting up to three levels; awaited operations complete at once or later, the awaiter is cancelled or abandoned; non-trivial: two or more operations and nesting, cancellation, abandonment or repetition", 200000, 8000000, property},
  });
}
