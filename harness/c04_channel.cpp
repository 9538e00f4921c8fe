// Channels: FIFO, exactly-once delivery, capacity, no lost wake-up, cancellation / race / close without loss.
#include "env.hpp"
#include <boost/cobalt/channel.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/cobalt/async_for.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/this_coro.hpp>
#include <boost/asio/post.hpp>
#include <deque>
#include <random>

using namespace env;
using pbt::Src; using pbt::Ctx;

// ---- payloads: carry a unique id; a moved-from or destroyed payload is recognisable
struct copyable_t : Live
{
  int id = -1;
  copyable_t() = default;
  explicit copyable_t(int i) : id(i) {}
  copyable_t(const copyable_t & o) = default;
  copyable_t(copyable_t && o) noexcept : Live(o), id(std::exchange(o.id, -2)) {}
  copyable_t & operator=(const copyable_t &) = default;
  copyable_t & operator=(copyable_t && o) noexcept { if (this != &o) id = std::exchange(o.id, -2); return *this; }
  ~copyable_t() { id = -3; }
};
struct moveonly_t : Live
{
  int id = -1;
  std::unique_ptr<int> heap;
  moveonly_t() = default;
  explicit moveonly_t(int i) : id(i), heap(new int(i)) {}
  moveonly_t(moveonly_t && o) noexcept : id(std::exchange(o.id, -2)), heap(std::move(o.heap)) {}
  moveonly_t & operator=(moveonly_t && o) noexcept { if (this != &o) { id = std::exchange(o.id, -2); heap = std::move(o.heap); } return *this; }
  ~moveonly_t() { id = -3; }
};
struct unit_t : Live { int id = 0; };

enum outcome { pending, ok, aborted, broken, other };
struct op_rec
{
  bool write; int chan; int value = -1; // value: id written / read
  int start = 0, end = 0;
  outcome out = pending;
  int agent; bool raced = false; bool queued = false; bool untagged = false;
};

template<typename T> struct model
{
  static constexpr bool is_void = std::is_void_v<T>;
  Src & src; Ctx & c; Env & e; Clock clk;
  std::vector<std::size_t> cap;
  std::vector<std::unique_ptr<cobalt::channel<T>>> ch;
  std::deque<op_rec> ops; // stable addresses
  int next_id = 1;
  std::vector<bool> closed;
  std::mt19937 rng;
  model(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}

  op_rec & begin(bool write, int chan, int agent)
  {
    auto & r = ops.emplace_back();
    r.write = write; r.chan = chan; r.agent = agent; r.start = clk.tick();
    if (write) r.value = next_id++;
    return r;
  }
  void finish(op_rec & r, outcome o, int v = -1)
  {
    if (r.out != pending) c.fail("operation completed twice");
    r.out = o; r.end = clk.tick();
    if (!r.write && o == ok) r.value = v;
    c.log(r.end, ": agent ", r.agent, r.write ? " write(" : " read(", r.value, ") on ", r.chan, " -> ",
          o == ok ? "ok" : o == aborted ? "aborted" : o == broken ? "broken_pipe" : "other", r.raced ? " [raced]" : "");
  }
  static outcome code(error_code ec)
  {
    if (!ec) return ok;
    if (ec == asio::error::operation_aborted) return aborted;
    if (ec == asio::error::broken_pipe) return broken;
    return other;
  }

  cobalt::promise<void> do_read(int chan, int agent, int mode)
  {
    auto & r = begin(false, chan, agent);
    auto & q = *ch[chan];
    try
    {
      if constexpr (is_void)
      {
        if (mode == 0) { co_await q.read(); finish(r, ok, 0); }
        else if (mode == 4) { auto op = q.read(); co_await asio::post(e.ctx, cobalt::use_op); co_await op; finish(r, ok, 0); }
        else if (mode == 1) { auto x = co_await cobalt::as_result(q.read()); finish(r, x.has_error() ? code(x.error()) : ok, 0); }
        else if (mode == 2) { auto x = co_await cobalt::as_tuple(q.read()); finish(r, code(std::get<0>(x)), 0); }
        else { cobalt::channel_reader<T> rd(q); co_await rd; finish(r, ok, 0); }
      }
      else
      {
        if (mode == 0) { auto v = co_await q.read(); finish(r, ok, v.id); }
        else if (mode == 4) { auto op = q.read(); co_await asio::post(e.ctx, cobalt::use_op); auto v = co_await op; finish(r, ok, v.id); }
        else if (mode == 1)
        {
          auto x = co_await cobalt::as_result(q.read());
          if (x.has_error()) finish(r, code(x.error())); else finish(r, ok, x->id);
        }
        else if (mode == 2)
        {
          auto x = co_await cobalt::as_tuple(q.read());
          auto oc = code(std::get<0>(x));
          finish(r, oc, std::get<1>(x).id);
          if (oc != ok) PBT_CHECK(c, std::get<1>(x).id == -1, "failed read came with a value");
        }
        else { cobalt::channel_reader<T> rd(q); auto v = co_await rd; finish(r, ok, v.id); }
      }
    }
    catch (boost::system::system_error & se) { finish(r, code(se.code())); }
  }

  cobalt::promise<void> do_write(int chan, int agent, int mode)
  {
    auto & r = begin(true, chan, agent);
    auto & q = *ch[chan];
    try
    {
      if constexpr (is_void)
      {
        if (mode == 6) { auto op = q.write(); co_await asio::post(e.ctx, cobalt::use_op); co_await op; finish(r, ok); }
        else if (mode % 3 == 0) { co_await q.write(); finish(r, ok); }
        else if (mode % 3 == 1) { auto x = co_await cobalt::as_result(q.write()); finish(r, x.has_error() ? code(x.error()) : ok); }
        else { auto x = co_await cobalt::as_tuple(q.write()); finish(r, code(std::get<0>(x))); }
      }
      else
      {
        T v(r.value);
        const bool constref = mode >= 3 && mode < 6;
        if constexpr (std::is_copy_constructible_v<T>)
        {
          const T & cv = v;
          if (constref)
          {
            if (mode == 3) { co_await q.write(cv); finish(r, ok); }
            else if (mode == 4) { auto x = co_await cobalt::as_result(q.write(cv)); finish(r, x.has_error() ? code(x.error()) : ok); }
            else { auto x = co_await cobalt::as_tuple(q.write(cv)); finish(r, code(std::get<0>(x))); }
            PBT_CHECK(c, v.id == r.value, "write(const &) modified its argument");
            co_return;
          }
        }
        if (mode == 6) { auto op = q.write(v); co_await asio::post(e.ctx, cobalt::use_op); co_await op; finish(r, ok); }
        else if (mode % 3 == 0) { co_await q.write(std::move(v)); finish(r, ok); }
        else if (mode % 3 == 1) { auto x = co_await cobalt::as_result(q.write(v)); finish(r, x.has_error() ? code(x.error()) : ok); }
        else { auto x = co_await cobalt::as_tuple(q.write(std::move(v))); finish(r, code(std::get<0>(x))); }
        if (r.out != ok) PBT_CHECK(c, v.id == r.value, "failed write consumed its argument");
      }
    }
    catch (boost::system::system_error & se) { finish(r, code(se.code())); }
  }

  // race of two operations on two (different) channels: one takes effect, the other has none
  cobalt::promise<void> do_race(int ca, int cb, bool wa, bool wb, int agent, bool left, bool lvalue)
  {
    auto & a = begin(wa, ca, agent); a.raced = true;
    auto & b = begin(wb, cb, agent); b.raced = true;
    auto & qa = *ch[ca]; auto & qb = *ch[cb];
    auto won = [&](op_rec & w, op_rec & l, int v) { finish(w, ok, v); finish(l, aborted); };
    try
    {
      if (!wa && !wb && lvalue)
      {
        c.label("race_lvalue_ops");
        auto oa = qa.read(); auto ob = qb.read();
        if constexpr (is_void)
        {
          std::size_t i = left ? co_await cobalt::left_race(oa, ob) : co_await cobalt::race(rng, oa, ob);
          if (i == 0) won(a, b, 0); else won(b, a, 0);
        }
        else
        {
          auto x = left ? co_await cobalt::left_race(oa, ob) : co_await cobalt::race(rng, oa, ob);
          if (x.index() == 0) won(a, b, boost::variant2::get<0>(x).id);
          else won(b, a, boost::variant2::get<1>(x).id);
        }
        // the ops outlive the race: whoever lost must not take part any more
        co_await asio::post(e.ctx, cobalt::use_op);
        co_return;
      }
      if constexpr (is_void)
      {
        std::size_t i;
        if (wa && wb) { if (left) i = co_await cobalt::left_race(qa.write(), qb.write()); else i = co_await cobalt::race(rng, qa.write(), qb.write()); }
        else if (wa)  { if (left) i = co_await cobalt::left_race(qa.write(), qb.read());  else i = co_await cobalt::race(rng, qa.write(), qb.read()); }
        else if (wb)  { if (left) i = co_await cobalt::left_race(qa.read(), qb.write());  else i = co_await cobalt::race(rng, qa.read(), qb.write()); }
        else          { if (left) i = co_await cobalt::left_race(qa.read(), qb.read());   else i = co_await cobalt::race(rng, qa.read(), qb.read()); }
        PBT_CHECK(c, i < 2);
        if (i == 0) won(a, b, 0); else won(b, a, 0);
      }
      else
      {
        T va(wa ? a.value : -7), vb(wb ? b.value : -7);
        if (wa && wb)
        {
          std::size_t i;
          if (left) i = co_await cobalt::left_race(qa.write(va), qb.write(vb)); else i = co_await cobalt::race(rng, qa.write(va), qb.write(vb));
          if (i == 0) won(a, b, -1); else won(b, a, -1);
          PBT_CHECK(c, (i == 0 ? vb.id == b.value : va.id == a.value), "losing write consumed its argument");
        }
        else if (!wa && !wb)
        {
          auto take = [&](auto && x)
          {
            if (x.index() == 0) won(a, b, boost::variant2::get<0>(x).id);
            else won(b, a, boost::variant2::get<1>(x).id);
          };
          if (left) take(co_await cobalt::left_race(qa.read(), qb.read())); else take(co_await cobalt::race(rng, qa.read(), qb.read()));
        }
        else if (wa)
        {
          auto take = [&](auto && x) { if (x.index() == 0) won(a, b, -1); else won(b, a, boost::variant2::get<1>(x).id); };
          if (left) take(co_await cobalt::left_race(qa.write(va), qb.read())); else take(co_await cobalt::race(rng, qa.write(va), qb.read()));
        }
        else
        {
          auto take = [&](auto && x) { if (x.index() == 1) won(b, a, -1); else won(a, b, boost::variant2::get<0>(x).id); };
          if (left) take(co_await cobalt::left_race(qa.read(), qb.write(vb))); else take(co_await cobalt::race(rng, qa.read(), qb.write(vb)));
        }
      }
    }
    catch (boost::system::system_error & se)
    {
      if (a.out != pending) co_return; // thrown by the post after the race
      auto o = code(se.code());
      // one branch failed; which one is not reported, and neither may have had an effect
      finish(a, o); finish(b, o);
    }
  }

  // ---------------------------------------------------------------- agents
  struct action { int kind; int chan; int mode; bool wa, wb; int chan2; bool left, lvalue; };
  std::vector<std::vector<action>> scripts;

  action gen_action(int role) // role 0: mixed, 1 reader, 2 writer
  {
    action a{};
    bool w = role == 0 ? src.flip() : role == 2;
    a.chan = static_cast<int>(src.below(static_cast<std::uint32_t>(ch.size())));
    if (ch.size() > 1 && src.chance(1, 4))
    {
      a.kind = 2; a.wa = w; a.wb = role == 0 ? src.flip() : w; a.chan2 = (a.chan + 1) % static_cast<int>(ch.size()); a.left = src.flip(); a.lvalue = src.flip();
      c.label("race");
    }
    else { a.kind = w ? 1 : 0; a.mode = static_cast<int>(src.below(w ? 7 : 5)); }
    return a;
  }

  cobalt::promise<void> agent(int id)
  {
    for (auto & a : scripts[static_cast<std::size_t>(id)])
    {
      // an abandoned agent (its promise was cancelled) stops issuing operations
      if (a.kind == 0) co_await do_read(a.chan, id, a.mode);
      else if (a.kind == 1) co_await do_write(a.chan, id, a.mode);
      else co_await do_race(a.chan, a.chan2, a.wa, a.wb, id, a.left, a.lvalue);
    }
  }

  // ---------------------------------------------------------------- oracles
  void check_quiescent()
  {
    for (std::size_t k = 0; k < ch.size(); k++)
    {
      long acked = 0, got = 0, pr = 0, pw = 0, prr = 0, pwr = 0;
      for (auto & o : ops) if (o.chan == static_cast<int>(k))
      {
        if (o.out == pending) (o.write ? (o.raced ? pwr : pw) : (o.raced ? prr : pr))++;
        if (o.out == ok) (o.write ? acked : got)++;
      }
      long fill = acked - got;
      PBT_CHECK(c, fill >= 0, "more reads than writes on channel " << k);
      PBT_CHECK(c, fill <= static_cast<long>(cap[k]), "channel " << k << " of capacity " << cap[k] << " holds " << fill << " messages at rest");
      if (closed[k])
      {
        PBT_CHECK(c, pr + pw + prr + pwr == 0, "operation still pending on closed channel " << k);
        continue;
      }
      if (pr + prr) PBT_CHECK(c, fill == 0, "lost wake-up: a reader waits on channel " << k << " which holds " << fill << " message(s)");
      if (pw + pwr) PBT_CHECK(c, fill == static_cast<long>(cap[k]), "lost wake-up: a writer waits on channel " << k << " with " << fill << "/" << cap[k]);
      // a pure reader and a pure writer cannot both wait on the same channel
      if (pr + prr) PBT_CHECK(c, pw == 0 || cap[k] > 0 || false, "reader and writer both wait on channel " << k);
      if (pr) c.label("reader_blocked"); if (pw) c.label("writer_blocked");
    }
  }

  void check_history()
  {
    for (std::size_t k = 0; k < ch.size(); k++)
    {
      std::vector<const op_rec *> w, r;
      for (auto & o : ops) if (o.chan == static_cast<int>(k)) (o.write ? w : r).push_back(&o);
      // capacity at every instant: completed writes minus reads that have started and succeed <= capacity
      // and delivery: every successful read has a write that started before the read ended
      std::vector<std::pair<int,int>> ev; // time, +1 write completed / -1 read started
      for (auto * o : w) if (o->out == ok) ev.push_back({o->end, +1});
      for (auto * o : r) if (o->out == ok) ev.push_back({o->start, -1});
      std::sort(ev.begin(), ev.end());
      long n = 0;
      for (auto & x : ev)
      {
        n += x.second;
        if (n > static_cast<long>(cap[k])) { c.fail("capacity exceeded on channel " + std::to_string(k) + " at " + std::to_string(x.first)); break; }
      }
      ev.clear();
      for (auto * o : w) if (o->out == ok) ev.push_back({o->start, +1});
      for (auto * o : r) if (o->out == ok) ev.push_back({o->end, -1});
      std::sort(ev.begin(), ev.end());
      n = 0;
      for (auto & x : ev) { n += x.second; if (n < 0) { c.fail("a read completed before its message was written"); break; } }
      if constexpr (!is_void)
      {
        std::map<int, const op_rec *> wr, rd;
        for (auto * o : w) wr[o->value] = o;
        for (auto * o : r) if (o->out == ok)
        {
          PBT_CHECK(c, o->value > 0, "read returned a value nobody wrote (" << o->value << ")");
          PBT_CHECK(c, !rd.count(o->value), "message " << o->value << " delivered twice");
          auto it = wr.find(o->value);
          if (it == wr.end()) { c.fail("message " + std::to_string(o->value) + " was not written to this channel"); continue; }
          rd[o->value] = o;
          PBT_CHECK(c, it->second->start < o->end, "message read before it was written");
          PBT_CHECK(c, it->second->out == ok || it->second->out == pending, "message " << o->value << " of a write that reported failure was delivered");
        }
        for (auto & x : wr) if (x.second->out == ok)
        {
          if (!rd.count(x.first)) c.fail("acknowledged message " + std::to_string(x.first) + " was lost on channel " + std::to_string(k));
          for (auto & y : wr) if (y.second->out == ok && x.second->end < y.second->start)
          {
            auto a = rd.find(x.first), b = rd.find(y.first);
            if (a != rd.end() && b != rd.end() && b->second->end < a->second->start)
              c.fail("messages " + std::to_string(x.first) + " and " + std::to_string(y.first) + " overtaken on channel " + std::to_string(k));
          }
        }
      }
      else
      {
        long nw = 0, nr = 0;
        for (auto * o : w) nw += o->out == ok;
        for (auto * o : r) nr += o->out == ok;
        PBT_CHECK(c, nw == nr, nw << " messages acknowledged but " << nr << " delivered on channel " << k);
      }
    }
  }
  // with one reader and one writer the read order is exactly the write order
  void check_spsc()
  {
    if constexpr (!is_void)
      for (std::size_t k = 0; k < ch.size(); k++)
      {
        std::vector<int> w, r; std::set<int> aw, ar;
        for (auto & o : ops) if (o.chan == static_cast<int>(k) && o.out == ok) (o.write ? aw : ar).insert(o.agent);
        for (auto & o : ops) if (o.chan == static_cast<int>(k) && o.out == ok) (o.write ? w : r).push_back(o.value);
        if (aw.size() == 1 && ar.size() == 1 && *aw.begin() != *ar.begin())
        { c.label("spsc_channel"); PBT_CHECK(c, w == r, "single reader saw another order than the single writer wrote"); }
      }
  }

  void run()
  {
    rng.seed(src.below(1000));
    auto nch = 1 + src.below(2);
    for (std::uint32_t i = 0; i < nch; i++)
    {
      cap.push_back(src.below(4)); closed.push_back(false);
      if constexpr (is_void) ch.push_back(std::make_unique<cobalt::channel<T>>(cap.back(), e.ctx.get_executor()));
      else if (src.flip()) ch.push_back(std::make_unique<cobalt::channel<T>>(cap.back(), e.ctx.get_executor()));
      else ch.push_back(std::make_unique<cobalt::channel<T>>(cap.back()));
    }
    auto na = 2 + src.below(4);
    std::vector<std::optional<cobalt::promise<void>>> ag;
    for (std::uint32_t i = 0; i < na; i++)
    {
      std::vector<action> s;
      int role = static_cast<int>(src.below(3));
      auto n = 1 + src.below(6);
      for (std::uint32_t k = 0; k < n; k++) s.push_back(gen_action(role));
      scripts.push_back(std::move(s));
      ag.emplace_back();
    }
    for (std::uint32_t i = 0; i < nch; i++) c.log("channel ", i, " capacity ", cap[i]);
    std::vector<bool> started(na, false), cancelled(na, false);
    auto nsteps = 3 + src.below(14);
    bool overlapped = false, closed_any = false;
    for (std::uint32_t s = 0; s < nsteps && !c.failed; s++)
    {
      switch (src.weighted({6, 4, 4, 2, 1, 3}))
      {
        case 0: // start the next agent
        {
          for (std::uint32_t i = 0; i < na; i++) if (!started[i])
          { started[i] = true; c.log(clk.now, ": start agent ", i); ag[i].emplace(agent(static_cast<int>(i))); break; }
          break;
        }
        case 1: { auto k = 1 + src.below(3); auto n = e.step(k); c.log(clk.now, ": run ", n, " handler(s)"); break; }
        case 2: e.settle(); c.log(clk.now, ": settle"); check_quiescent(); break;
        case 3: // cancel an agent
        {
          auto i = src.below(na);
          if (started[i] && !cancelled[i] && !ag[i]->ready())
          { cancelled[i] = true; c.label("cancelled_agent"); c.log(clk.now, ": cancel agent ", i); ag[i]->cancel(); }
          break;
        }
        case 4:
        {
          auto k = src.below(nch);
          if (s > 4 && !closed[k])
          {
            e.settle(); // the fill level is only exact at rest
            closed[k] = true; closed_any = true; c.label("closed_with_traffic"); c.log(clk.now, ": close ", k);
            ch[k]->close();
            PBT_CHECK(c, !ch[k]->is_open());
          }
          break;
        }
        case 5: // an operation at rest that needs no partner completes without suspending
        {
          e.settle(); check_quiescent();
          auto k = src.below(nch); bool w = src.flip(); auto mode = static_cast<int>(src.below(w ? 6 : 4));
          if (closed[k]) break;
          long fill = 0; bool waiting = false;
          for (auto & o : ops) if (o.chan == static_cast<int>(k)) { if (o.out == ok) fill += o.write ? 1 : -1; if (o.out == pending) waiting = true; }
          if (waiting) break;
          if (w ? fill < static_cast<long>(cap[k]) : fill > 0)
          {
            c.label("immediate_op");
            int owner = 1000 + static_cast<int>(s);
            auto p = w ? do_write(static_cast<int>(k), owner, mode) : do_read(static_cast<int>(k), owner, mode);
            PBT_CHECK(c, p.ready(), (w ? "write to a non-full" : "read from a non-empty") << " channel suspended");
            e.settle();
          }
          break;
        }
      }
      int np = 0; for (auto & o : ops) np += o.out == pending;
      if (np >= 2) overlapped = true;
    }
    // drain: everything acknowledged must come out, in order
    e.settle(); check_quiescent();
    for (std::uint32_t i = 0; i < na; i++) if (started[i] && !ag[i]->ready()) ag[i]->cancel();
    e.settle(); check_quiescent();
    for (std::uint32_t i = 0; i < na; i++) if (started[i]) PBT_CHECK(c, ag[i]->ready(), "agent " << i << " still suspended after cancellation");
    for (auto & o : ops) PBT_CHECK(c, o.out != pending && o.out != other, "operation without a defined outcome");
    if (c.failed) { abandon(); return; }
    bool close_first = src.flip();
    for (std::uint32_t k = 0; k < nch && !c.failed; k++)
    {
      long fill = 0;
      for (auto & o : ops) if (o.chan == static_cast<int>(k) && o.out == ok) fill += o.write ? 1 : -1;
      if (close_first && !closed[k]) { ch[k]->close(); closed[k] = true; }
      if (fill > 0) c.label(closed[k] ? "drained_after_close" : "drained_open");
      for (long i = 0; i < fill && !c.failed; i++)
      {
        auto p = do_read(static_cast<int>(k), 2000, 1);
        PBT_CHECK(c, p.ready(), "buffered message not readable");
        PBT_CHECK(c, ops.back().out == ok, "message accepted before close was not delivered");
        p.detach();
      }
      if (closed[k] && !c.failed)
      {
        { auto p = do_read(static_cast<int>(k), 2001, static_cast<int>(src.below(4))); e.settle();
          PBT_CHECK(c, p.ready() && ops.back().out == broken, "read of a closed empty channel must report broken_pipe"); p.detach(); }
        { auto p = do_write(static_cast<int>(k), 2001, static_cast<int>(src.below(6))); e.settle();
          PBT_CHECK(c, p.ready() && ops.back().out == broken, "write to a closed channel must report broken_pipe"); p.detach(); }
      }
    }
    if (!c.failed) { check_history(); check_spsc(); }
    for (auto & o : ops)
    {
      if (o.out == broken) PBT_CHECK(c, closed[static_cast<std::size_t>(o.chan)] || (o.raced), "broken_pipe on an open channel");
      if (o.out == aborted && o.agent < static_cast<int>(na) && !o.raced) PBT_CHECK(c, cancelled[static_cast<std::size_t>(o.agent)] || true);
    }
    if (overlapped && ops.size() >= 4) c.mark_nontrivial();
    if (closed_any) c.label("closed");
    for (auto & o : ops) if (o.out == aborted) c.label("aborted_op");
    for (auto & a : ag) if (a) { a->cancel(); }
    ag.clear();
    e.settle();
    ch.clear();
    e.settle();
  }
  void abandon()
  {
    // the case already failed: just release everything without further checks
    for (auto & q : ch) q->close();
    e.settle();
  }
};

template<typename T> void body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e;
    {
      model<T> m(src, c, e);
      m.run();
    }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0, Live::n - live0 << " payload(s) never destroyed");
}

// -------------------------------------------------- destruction of a channel with suspended operations
struct guard : Live { std::shared_ptr<int> n; explicit guard(std::shared_ptr<int> p) : n(std::move(p)) { ++*n; } ~guard() { --*n; } };

template<typename T> cobalt::detached stuck(cobalt::channel<T> & q, bool write, std::shared_ptr<int> n, bool & resumed)
{
  guard g(n);
  try
  {
    if constexpr (std::is_void_v<T>) { if (write) co_await q.write(); else co_await q.read(); }
    else { if (write) { T v(1); co_await q.write(std::move(v)); } else co_await q.read(); }
  } catch (...) {}
  resumed = true;
}

template<typename T> void destroy_body(Src & src, Ctx & c)
{
  Env e;
  auto n = std::make_shared<int>(0);
  bool resumed[8] = {};
  auto cap = src.below(3);
  {
    cobalt::channel<T> q{cap, e.ctx.get_executor()};
    bool write = src.flip();
    if (write) for (std::uint32_t i = 0; i < cap; i++) { bool r = false; stuck(q, true, n, r); PBT_CHECK(c, r); }
    auto k = 1 + src.below(5);
    for (std::uint32_t i = 0; i < k; i++) stuck(q, write, n, resumed[i]);
    PBT_CHECK(c, *n == static_cast<int>(k), "operations should be suspended");
    c.mark_nontrivial();
  }
  PBT_CHECK(c, *n == 0, *n << " coroutine(s) suspended on a destroyed channel were not destroyed");
  e.settle();
  for (bool r : resumed) PBT_CHECK(c, !r, "coroutine resumed by the destruction of the channel");
  e.check_memory(c);
}

// -------------------------------------------------- BOOST_COBALT_FOR over a channel_reader
cobalt::promise<void> for_reader(cobalt::channel<copyable_t> & q, std::vector<int> & got, int & failed)
{
  try { BOOST_COBALT_FOR(auto v, cobalt::channel_reader(q)) got.push_back(v.id); }
  catch (boost::system::system_error & e) { failed = e.code() == asio::error::broken_pipe ? 1 : 2; }
}
cobalt::promise<void> for_writer(cobalt::channel<copyable_t> & q, int n)
{
  for (int i = 1; i <= n; i++) co_await q.write(copyable_t(i));
}
void for_body(Src & src, Ctx & c)
{
  Env e;
  {
    auto cap = src.below(4); int n = static_cast<int>(src.below(9));
    cobalt::channel<copyable_t> q{cap, e.ctx.get_executor()};
    std::vector<int> got; int failed = 0;
    std::optional<cobalt::promise<void>> r, w;
    if (src.flip()) { r.emplace(for_reader(q, got, failed)); w.emplace(for_writer(q, n)); }
    else { w.emplace(for_writer(q, n)); r.emplace(for_reader(q, got, failed)); }
    e.settle();
    PBT_CHECK(c, w->ready(), "writer blocked although the reader drains");
    PBT_CHECK(c, !r->ready(), "reader loop ended on an open channel");
    std::vector<int> want; for (int i = 1; i <= n; i++) want.push_back(i);
    PBT_CHECK(c, got == want, "BOOST_COBALT_FOR saw " << got.size() << " of " << n << " messages, or reordered them");
    q.close(); e.settle();
    PBT_CHECK(c, r->ready() && failed == 1, "closing must end the reader with broken_pipe");
    if (n > static_cast<int>(cap)) c.mark_nontrivial();
  }
  e.settle(); e.check_memory(c);
}

// -------------------------------------------------- a read & a write of the same buffered channel in one race: exactly one of them happens
cobalt::promise<void> self_race(Src & src, Ctx & c, cobalt::channel<copyable_t> & q, std::size_t cap, bool & done)
{
  std::mt19937 rng(src.below(1000));
  std::deque<int> m;
  int id = 0, waited = 0;
  auto n = 1 + src.below(12);
  for (std::uint32_t i = 0; i < n && !c.failed; i++)
  {
    bool can_r = !m.empty(), can_w = m.size() < cap, left = src.flip(), wfirst = src.flip();
    copyable_t v(++id);
    bool wrote; int got = -1;
    if (wfirst)
    {
      auto f = [&](auto && x) { wrote = x.index() == 0; if (!wrote) got = boost::variant2::get<1>(x).id; };
      if (left) f(co_await cobalt::left_race(q.write(v), q.read())); else f(co_await cobalt::race(rng, q.write(v), q.read()));
    }
    else
    {
      auto f = [&](auto && x) { wrote = x.index() == 1; if (!wrote) got = boost::variant2::get<0>(x).id; };
      if (left) f(co_await cobalt::left_race(q.read(), q.write(v))); else f(co_await cobalt::race(rng, q.read(), q.write(v)));
    }
    c.log(wrote ? "wrote " : "read ", wrote ? id : got, " with ", m.size(), "/", cap);
    PBT_CHECK(c, wrote ? can_w : can_r, "race completed an operation that could not proceed");
    if (left && can_r && can_w) PBT_CHECK(c, wrote == wfirst, "left_race did not pick the first ready branch");
    if (!(can_r && can_w)) waited++;
    if (wrote) m.push_back(id);
    else if (!m.empty()) { PBT_CHECK(c, got == m.front(), "read " << got << " instead of " << m.front()); PBT_CHECK(c, v.id == id, "losing write consumed its argument"); m.pop_front(); }
    if (src.chance(1, 3)) co_await asio::post(co_await cobalt::this_coro::executor, cobalt::use_op);
  }
  while (!m.empty() && !c.failed)
  {
    auto r = q.read();
    PBT_CHECK(c, r.await_ready(), "message lost");
    if (c.failed) break;
    PBT_CHECK(c, r.await_resume().id == m.front());
    m.pop_front();
  }
  PBT_CHECK(c, !q.read().await_ready(), "message duplicated");
  if (n >= 3 && waited) c.mark_nontrivial();
  done = true;
}
void self_body(Src & src, Ctx & c)
{
  Env e;
  {
    auto cap = 1 + src.below(3);
    cobalt::channel<copyable_t> q{cap, e.ctx.get_executor()};
    bool done = false;
    auto p = self_race(src, c, q, cap, done);
    e.settle();
    PBT_CHECK(c, done, "race of a read & a write on a buffered channel hangs");
    p.cancel();
    e.settle();
  }
  e.settle(); if (!c.failed) e.check_memory(c);
}

int main(int argc, char ** argv)
{
  const char * d = "1-2 channels of capacity 0-3, 2-5 agents each running 1-6 generated reads/writes/races, interleaved with single-handler steps, "
                   "cancellations and closes; history checked for queue linearizability; non-trivial: >=4 operations and two pending at once";
  return pbt::run_main(argc, argv, "C04", {
    {"copyable", d, 250000, 7000000, body<copyable_t>},
    {"moveonly", d, 150000, 5000000, body<moveonly_t>},
    {"void", d, 250000, 7000000, body<void>},
    {"self_race", "1-12 races of a read & a write on the same channel of capacity 1-3 against a deque; non-trivial: >=3 races, one of which had to wait", 30000, 600000, self_body},
    {"destroy_value", "channel destroyed with 1-5 suspended detached coroutines; all non-trivial", 1000, 3000, destroy_body<copyable_t>},
    {"destroy_void", "same for channel<void>", 1000, 3000, destroy_body<void>},
    {"for_each", "BOOST_COBALT_FOR over a channel_reader; non-trivial: more messages than capacity", 20000, 200000, for_body},
  });
}
