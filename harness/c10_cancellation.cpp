// C10: cancellation.  Random trees of coroutines, run against a model of who awaits what and with which filters.
#include "gate.hpp"
#include <boost/cobalt/with.hpp>
#include <boost/cobalt/race.hpp>
#include <boost/cobalt/gather.hpp>
#include <boost/cobalt/join.hpp>
using namespace env;
using pbt::Src; using pbt::Ctx;
using ct = asio::cancellation_type;

struct tree
{
  struct Node;
  struct leaf { Gate * g; bool loose = false, completed = false; error_code ec; std::vector<int> want; };
  struct target { leaf * l = nullptr; Node * n = nullptr; };
  struct Node
  {
    int id, depth; char kind; // p t g d
    int in = 7, out = 7, cancelled = 0; bool throwf = true, loose = false, started = false, ended = false, orphan = false;
    std::vector<target> awaiting;
    std::vector<Node *> kids;
    std::optional<cobalt::promise<int>> p; std::optional<cobalt::task<int>> t; std::optional<cobalt::generator<int>> g;
    Node(int id, int depth, char kind) : id(id), depth(depth), kind(kind) {}
    bool held() const { return p || t || g; }
  };
  struct res : Live {};
  Src & src; Ctx & c; Env & e;
  std::deque<Gate> gates; std::deque<leaf> leaves; std::deque<Node> nodes;
  bool everything_orphan = false; int delivered = 0, throws_seen = 0, deepest = 0;
  tree(Src & s, Ctx & c, Env & e) : src(s), c(c), e(e) {}

  // ---- the model
  void deliver(Node & n, int type, int lvl = 0)
  {
    if (!n.started || n.ended) return;
    n.cancelled = type & n.in;
    int out = n.cancelled & n.out;
    if (!out) return;
    for (auto t : n.awaiting)
      if (t.l) { if (t.l->g->waiting() && !t.l->g->slotless) { t.l->want.push_back(out); delivered++; deepest = std::max(deepest, lvl); } }
      else deliver(*t.n, out, lvl + 1);
  }
  void set_loose(Node & n) { if (n.loose) return; n.loose = true; for (auto k : n.kids) set_loose(*k); for (auto t : n.awaiting) { if (t.l) t.l->loose = true; if (t.n) set_loose(*t.n); } }
  void set_orphan(Node & n) { n.orphan = true; for (auto k : n.kids) set_orphan(*k); for (auto t : n.awaiting) if (t.n) set_orphan(*t.n); }
  void check(const char * when)
  {
    for (auto & l : leaves)
    {
      PBT_CHECK(c, !l.g->stray_cancel, "a completed operation received a cancellation");
      PBT_CHECK(c, l.g->initiations <= 1 && l.g->completions <= 1 && l.g->ready_calls <= 1);
      if (l.loose) continue;
      PBT_CHECK(c, l.g->cancels.size() == l.want.size(), when << ": operation " << l.g->id << " received " << l.g->cancels.size() << " requests, should " << l.want.size());
      for (std::size_t i = 0; i < l.want.size() && i < l.g->cancels.size(); i++)
        PBT_CHECK(c, int(l.g->cancels[i]) == l.want[i], "operation " << l.g->id << " received type " << int(l.g->cancels[i]) << ", should " << l.want[i]);
    }
  }
  leaf & new_leaf(Node & n)
  {
    auto & g = gates.emplace_back(e, static_cast<int>(gates.size()));
    g.reaction = static_cast<on_cancel>(src.below(3)); g.imm_val = 100 + g.id; g.immediate_ready = src.chance(1, 6); g.slotless = src.chance(1, 6);
    auto & l = leaves.emplace_back(leaf{&g, n.loose});
    g.on_complete = [&l](error_code ec, int) { l.completed = true; l.ec = ec; };
    return l;
  }
  Node & new_node(Node & parent, char kind)
  {
    auto & n = nodes.emplace_back(static_cast<int>(nodes.size()), parent.depth + 1, kind);
    n.loose = parent.loose; n.orphan = parent.orphan;
    parent.kids.push_back(&n);
    return n;
  }
  static constexpr int all_mask = -1;
  void drop(Node & n) // what holds n goes away
  {
    if (n.p && !n.ended) { set_orphan(n); deliver(n, all_mask); }
    if (n.g && !n.ended) { set_orphan(n); deliver(n, all_mask); }
    n.p.reset(); n.t.reset(); n.g.reset();
  }
  Node & child(Node & n)
  {
    static const char k[] = {'p', 't', 'g'};
    auto & m = new_node(n, k[src.below(3)]);
    create(m);
    return m;
  }
  void create(Node & m)
  {
    switch (m.kind) { case 'p': m.p.emplace(run<cobalt::promise<int>>(m)); break; case 't': m.t.emplace(run<cobalt::task<int>>(m)); break; case 'g': m.g.emplace(run<cobalt::generator<int>>(m)); break; }
  }
  bool expects_throw(Node & n) const { return n.cancelled && n.throwf; }

  template<typename Coro> Coro run(Node & n)
  {
    n.started = true;
    constexpr bool gen = std::is_same_v<Coro, cobalt::generator<int>>, det = std::is_same_v<Coro, cobalt::detached>;
    bool fail = false;
    auto steps = 1 + src.below(n.depth ? 5 : 8);
    c.log("start ", n.id, " (", n.kind, ")");
    if constexpr (det) co_await cobalt::this_coro::reset_cancellation_source(sig.slot());
    for (std::uint32_t s = 0; s < steps && !fail; s++)
    {
      bool more = n.depth < 4 && nodes.size() < 14 && gates.size() < 24;
      auto op = src.weighted({8, more ? 6u : 0u, more ? 3u : 0u, 4, more ? 2u : 0u, more ? 2u : 0u, more ? 2u : 0u, 3, 2, 2, gen ? 4u : 0u, 2, more ? 2u : 0u, more ? 2u : 0u});
      bool exp = expects_throw(n), threw = false, check_throw = false, touched = false;
      try
      {
        switch (op)
        {
          case 0: // an operation
          {
            auto & l = new_leaf(n); n.awaiting = {{&l}};
            check_throw = true; int v = 0;
            try { v = co_await *l.g; }
            catch (boost::system::system_error & se)
            {
              threw = true; touched = l.g->ready_calls > 0;
              if (touched) PBT_CHECK(c, l.completed && l.ec && se.code() == l.ec, "an await threw " << se.code().message() << " though its operation didn't");
            }
            if (!threw) { touched = true; PBT_CHECK(c, v == 100 + l.g->id && l.completed); }
            n.awaiting.clear();
            if (threw && touched && !n.orphan && src.flip()) fail = true;
            break;
          }
          case 1: case 11: // a coroutine: new, or one started before
          {
            Node * m = nullptr;
            if (op == 11) { for (auto k : n.kids) if (k->held() && !(k->ended && k->kind != 'p')) { m = k; break; } }
            else m = &child(n);
            if (!m) break;
            c.log(n.id, " awaits ", m->id); n.awaiting = {{nullptr, m}}; check_throw = true; bool mended = m->ended; bool mv = src.flip(); error_code got;
            try
            {
              if (m->kind == 'p') { if (mv) co_await std::move(*m->p); else co_await *m->p; touched = true; }
              else if (m->kind == 't') { if (mv) co_await std::move(*m->t); else co_await *m->t; touched = true; }
              else { co_await *m->g; touched = true; }
            }
            catch (boost::system::system_error & se) { threw = true; got = se.code(); touched = m->ended && (!mended || !exp); }
            n.awaiting.clear();
            if (touched || (m->kind != 'g' && m->ended)) { if (m->ended && !(threw && exp && mended)) { m->p.reset(); m->t.reset(); if (m->g && !*m->g) m->g.reset(); } }
            if (threw && touched && !n.orphan && src.flip()) fail = true;
            break;
          }
          case 2: if (n.kids.size() < 4) child(n); break; // left running (or not yet started)
          case 3: // queries
          {
            asio::cancellation_type q = co_await cobalt::this_coro::cancelled; asio::cancellation_state st = co_await cobalt::this_coro::cancellation_state;
            int a = static_cast<int>(q), b = static_cast<int>(st.cancelled());
            bool t = co_await cobalt::this_coro::throw_if_cancelled();
            PBT_CHECK(c, t == n.throwf, "throw_if_cancelled() reports " << t);
            if (!n.loose) PBT_CHECK(c, a == n.cancelled && b == n.cancelled, "coroutine " << n.id << " sees cancellation " << a << "/" << b << ", should see " << n.cancelled);
            break;
          }
          case 4: // with
          {
            auto & b = new_node(n, 'p'); auto & t = new_node(n, 'p');
            n.awaiting.clear(); check_throw = true;
            try
            {
              co_await cobalt::with(res{}, [this, &n, &b](res &) { c.log(n.id, " awaits with ", b.id); auto p = run<cobalt::promise<int>>(b); n.awaiting = {{nullptr, &b}}; return p; },
                [this, &n, &t](res &&, std::exception_ptr) { c.log(n.id, " awaits teardown ", t.id); n.awaiting.clear(); auto p = run_void(t); n.awaiting = {{nullptr, &t}}; return p; });
            }
            catch (boost::system::system_error &) { threw = true; }
            touched = b.started; n.awaiting.clear();
            PBT_CHECK(c, b.started == b.ended && t.ended == b.ended, "with was left before body and teardown ended");
            if (threw && touched && !n.orphan && src.flip()) fail = true;
            break;
          }
          case 5: // gather: everything gets it
          {
            auto & m = new_node(n, 'p'), & k = new_node(n, 't'); create(m); create(k);
            auto & l = new_leaf(n);
            n.awaiting = {{nullptr, &m}, {nullptr, &k}, {&l}}; check_throw = true;
            c.log(n.id, " gathers ", m.id, ", ", k.id, " and ", l.g->id);
            try { co_await cobalt::gather(*m.p, *k.t, *l.g); touched = true; } catch (boost::system::system_error &) { threw = true; }
            n.awaiting.clear();
            if (!threw) PBT_CHECK(c, m.ended && k.ended && l.completed, "gather completed early");
            drop(m); drop(k);
            break;
          }
          case 13: // gather of a range
          {
            auto & m = new_node(n, 'p'), & k = new_node(n, 'p'); create(m); create(k);
            std::vector<cobalt::promise<int>> v; v.push_back(std::move(*m.p)); v.push_back(std::move(*k.p)); m.p.reset(); k.p.reset();
            n.awaiting = {{nullptr, &m}, {nullptr, &k}}; check_throw = true;
            c.log(n.id, " gathers the range ", m.id, ", ", k.id);
            try { co_await cobalt::gather(v); touched = true; } catch (boost::system::system_error &) { threw = true; }
            n.awaiting.clear();
            if (!threw) PBT_CHECK(c, m.ended && k.ended, "gather completed early");
            for (auto x : {&m, &k}) { if (!x->ended) { set_orphan(*x); deliver(*x, all_mask); } v.erase(v.begin()); }
            break;
          }
          case 6: // race: a promise & (intact if it loses), and an operation
          {
            auto & m = new_node(n, 'p'); create(m);
            auto & l = new_leaf(n); l.loose = true;
            n.awaiting = {{nullptr, &m}, {&l}}; check_throw = true;
            c.log(n.id, " races ", m.id, " and ", l.g->id);
            bool ended = m.ended;
            try { co_await cobalt::left_race(*m.p, *l.g); touched = true; }
            catch (boost::system::system_error &) { threw = true; touched = m.ended != ended || l.g->ready_calls || (ended && !exp); }
            n.awaiting.clear();
            if (touched && m.ended) { m.p.reset(); } // its outcome may or may not be gone
            break;
          }
          case 12: // join or race that may cancel its branches on its own
          {
            auto & m = new_node(n, src.flip() ? 'p' : 't'); m.loose = true; auto & l = new_leaf(n); l.loose = true; create(m);
            n.awaiting = {{nullptr, &m}, {&l}};
            c.log(n.id, " joins or races ", m.id, " and ", l.g->id);
            auto f = src.below(2);
            try
            {
              if (m.p) { if (f) co_await cobalt::join(std::move(*m.p), *l.g); else co_await cobalt::left_race(*l.g, std::move(*m.p)); }
              else { if (f) co_await cobalt::join(std::move(*m.t), *l.g); else co_await cobalt::left_race(*l.g, std::move(*m.t)); }
              if (f) PBT_CHECK(c, m.ended && l.completed); else PBT_CHECK(c, m.ended || l.completed);
              if (exp && !n.loose) check_throw = true;
            }
            catch (boost::system::system_error &) { threw = true; }
            n.awaiting.clear();
            PBT_CHECK(c, !l.g->waiting() && (m.ended || m.held()), "a branch was left running");
            drop(m);
            break;
          }
          case 7: // reset
          {
            c.label("reset"); const int masks[] = {0, 1, 3, 7};
            auto i = src.below(4), o = src.below(4); auto f = src.below(3);
            auto go = [&](int in, int out) { n.in = in; n.out = out; n.cancelled = 0; c.log(n.id, " resets to ", in, "/", out); };
            using namespace asio;
            auto filt = [&](std::uint32_t k) { return [m = masks[k]](asio::cancellation_type t) { return t & static_cast<asio::cancellation_type>(m); }; };
            if (f == 0) { co_await cobalt::this_coro::reset_cancellation_state(); go(7, 7); }
            else if (f == 1)
            {
              if (i == 0) co_await cobalt::this_coro::reset_cancellation_state(disable_cancellation());
              else if (i == 1) co_await cobalt::this_coro::reset_cancellation_state(enable_terminal_cancellation());
              else if (i == 2) co_await cobalt::this_coro::reset_cancellation_state(enable_partial_cancellation());
              else co_await cobalt::this_coro::reset_cancellation_state(enable_total_cancellation());
              go(masks[i], masks[i]);
            }
            else { co_await cobalt::this_coro::reset_cancellation_state(filt(i), filt(o)); go(masks[i], masks[o]); }
            break;
          }
          case 8: { bool v = src.flip(); co_await cobalt::this_coro::throw_if_cancelled(v); n.throwf = v; break; }
          case 9: // cancel a child directly
            for (auto k : n.kids) if (k->held() && !k->ended && (k->p || k->g))
            {
              auto t = some(); c.log(n.id, " cancels ", k->id, " with ", int(t)); c.label("direct");
              deliver(*k, int(t));
              if (k->p) k->p->cancel(t); else k->g->cancel(t);
              break;
            }
            break;
          case 10: if constexpr (gen) { n.awaiting.clear(); co_yield n.id; } break;
        }
      }
      catch (boost::system::system_error & se) { PBT_CHECK(c, false, "statement " << op << " threw " << se.what()); }
      if (check_throw && exp) { throws_seen++; if (!n.loose) PBT_CHECK(c, threw && !touched, "coroutine " << n.id << " is cancelled, so its next await must throw"); }
      if (check_throw && !exp && !n.loose) PBT_CHECK(c, touched, "coroutine " << n.id << " isn't cancelled or doesn't throw, but its await did nothing");
      if (c.failed) break;
    }
    for (auto k : n.kids) drop(*k);
    fail = fail && !n.orphan && !everything_orphan && !det;
    n.ended = true; n.awaiting.clear();
    c.log(n.id, fail ? " fails" : " ends");
    if (fail) throw boost::system::system_error(asio::error::operation_aborted);
    if constexpr (!det) co_return n.id;
  }
  cobalt::promise<void> run_void(Node & n)
  {
    co_await cobalt::this_coro::throw_if_cancelled(false); n.throwf = false; n.started = true;
    auto k = src.below(3);
    for (std::uint32_t i = 0; i < k; i++)
    {
      auto & l = new_leaf(n); n.awaiting = {{&l}};
      try { co_await *l.g; } catch (boost::system::system_error &) {}
      n.awaiting.clear();
    }
    n.ended = true;
  }
  asio::cancellation_signal sig;
  ct some() { const ct a[] = {ct::terminal, ct::partial, ct::total, ct::all, ct::terminal | ct::partial}; return a[src.below(5)]; }

  void main()
  {
    auto & root = nodes.emplace_back(0, 0, src.chance(1, 4) ? 'd' : src.chance(1, 4) ? 'g' : 'p');
    auto cancel = [&](ct t)
    {
      if (root.ended) return;
      c.log("cancel root with ", int(t)); deliver(root, int(t));
      if (root.kind == 'd') sig.emit(t); else if (root.p) root.p->cancel(t); else if (root.g) root.g->cancel(t);
    };
    if (root.kind == 'd') run<cobalt::detached>(root); else create(root);
    std::optional<cobalt::promise<void>> reader; bool reader_done = false;
    auto read = [&](cobalt::generator<int> & g) -> cobalt::promise<void> { co_await cobalt::this_coro::throw_if_cancelled(false); try { while (g) co_await g; } catch (boost::system::system_error &) {} reader_done = true; };
    if (root.g) reader.emplace(read(*root.g));
    auto n = 2 + src.below(24);
    for (std::uint32_t i = 0; i < n && !c.failed; i++)
    {
      switch (src.weighted({5, 4, 3}))
      {
        case 0:
        {
          if (gates.empty()) break;
          auto k = src.below(static_cast<std::uint32_t>(gates.size()));
          for (std::size_t j = 0; j < gates.size(); j++)
          {
            auto & g = gates[(k + j) % gates.size()];
            if (!g.waiting()) continue;
            bool posted = src.chance(1, 3);
            c.log("complete ", g.id, posted ? " (posted)" : "");
            g.complete({}, 100 + g.id, posted);
            break;
          }
          break;
        }
        case 1: cancel(some()); break;
        case 2: e.step(1 + src.below(3)); break;
      }
      check("after an action");
    }
    if (c.failed) return;
    if (src.chance(1, 12))
    {
      e.settle(); c.label("teardown"); everything_orphan = true;
      for (auto & m : nodes) m.orphan = true;
      for (std::size_t j = 0; j < gates.size(); j++) gates[j].drop();
      e.settle();
    }
    else
    {
      for (int r = 0; r < 300 && !c.failed; r++)
      {
        e.settle(); check("settled");
        bool any = false;
        for (std::size_t j = 0; j < gates.size() && !any; j++) if (gates[j].waiting()) { any = true; gates[j].complete({}, 100 + gates[j].id); }
        if (!any) break;
      }
      PBT_CHECK(c, root.ended && (!reader || reader_done), "the root coroutine never ends");
    }
    if (c.failed) return;
    reader.reset();
    for (auto & m : nodes) { m.p.reset(); m.t.reset(); m.g.reset(); }
    if (delivered) c.mark_nontrivial();
    if (delivered) c.label(deepest == 0 ? "depth0" : deepest == 1 ? "depth1" : deepest == 2 ? "depth2" : "depth3+");
    if (throws_seen) c.label("throw_if_cancelled");
  }
  void clean() // after a failure
  {
    everything_orphan = true; for (auto & m : nodes) m.orphan = true;
    for (std::size_t j = 0; j < gates.size(); j++) gates[j].drop();
    e.settle();
    for (auto & m : nodes) { m.p.reset(); m.t.reset(); m.g.reset(); }
  }
};

static void body(Src & src, Ctx & c)
{
  auto live0 = Live::n;
  {
    Env e;
    { tree t(src, c, e); t.main(); if (c.failed) t.clean(); e.settle(); }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, Live::n == live0);
  Live::n = live0;
}
int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C10", {
    {"tree", "trees of up to 14 coroutines (promise, task, generator, detached with own source, with, gather, race, join) with generated statements (await, query, reset with filters, throw_if_cancelled, direct cancel, yield), "
             "2-25 completions / cancellations of the root; non-trivial: the model delivers a request to an operation", 500000, 8000000, body},
  });
}
