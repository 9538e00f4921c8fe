// C18: read/write (read_all, write_all and the _at variants) over a scripted stream that transfers any part at a time.
#include "gate.hpp"
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/io/stream.hpp>
#include <boost/cobalt/io/random_access_device.hpp>
using namespace env;
namespace io = cobalt::io;
using pbt::Src; using pbt::Ctx;
using handler_t = cobalt::completion_handler<error_code, std::size_t>;

// where the requested bytes are, plus everything around them
struct memory
{
  std::vector<unsigned char> mem, before; std::vector<unsigned char *> want; // addresses of the requested bytes, in order
  std::vector<std::pair<std::size_t, std::size_t>> parts;
  memory(Src & src)
  {
    std::size_t at = src.below(4);
    for (auto n = src.below(src.chance(1, 6) ? 20 : 5); n--;) { std::size_t len = src.chance(1, 5) ? 0 : src.below(src.chance(1, 10) ? 200 : 12); parts.emplace_back(at, len); at += len + src.below(4); }
    mem.resize(at + 4); for (auto & b : mem) b = static_cast<unsigned char>(src.below(2) ? 0xA5 : &b - mem.data());
    if (src.flip()) std::reverse(parts.begin(), parts.end());
    before = mem;
    for (auto & p : parts) for (std::size_t i = 0; i < p.second; i++) want.push_back(mem.data() + p.first + i);
  }
  template<typename B> std::vector<B> buffers() { std::vector<B> r; for (auto & p : parts) r.emplace_back(mem.data() + p.first, p.second); return r; }
};

// The stream: every step transfers a generated part of what it is offered, at once, later, or not at all, and may fail.
struct scripted : io::stream, io::random_access_device
{
  Src & src; Ctx & c; Env & e; memory & m; bool at, reading, hold = false; std::uint64_t offset0;
  std::size_t done = 0; int steps = 0, zero = 0, cancels = 0; error_code failed; bool cancel_seen = false, stop_expected = false, more_after_stop = false;
  std::vector<unsigned char> sent;
  std::optional<handler_t> h; std::vector<unsigned char *> offered; asio::cancellation_slot slot; int reaction = 0;
  scripted(Src & s, Ctx & c, Env & e, memory & m, bool at, bool reading, std::uint64_t off) : src(s), c(c), e(e), m(m), at(at), reading(reading), offset0(off) {}

  template<typename Seq> void offer(std::uint64_t off, const Seq & s)
  {
    offered.clear(); steps++;
    if (stop_expected) more_after_stop = true;
    for (auto it = s.begin(); it != s.end(); ++it) { auto b = *it; for (std::size_t i = 0; i < b.size(); i++) offered.push_back(static_cast<unsigned char *>(const_cast<void *>(static_cast<const void *>(b.data()))) + i); }
    PBT_CHECK(c, !h, "a step while another is pending"); PBT_CHECK(c, !failed, "a step after an error");
    PBT_CHECK(c, std::equal(offered.begin(), offered.end(), m.want.begin() + std::ptrdiff_t(done), m.want.end()), "step " << steps << " doesn't offer the rest after " << done << " of " << m.want.size() << " bytes, but " << offered.size());
    if (at) PBT_CHECK(c, off == offset0 + done, "step " << steps << " is at offset " << off - offset0 << " after " << done << " bytes");
  }
  // how a step ends
  std::pair<error_code, std::size_t> transfer(bool aborting = false)
  {
    std::size_t n = 0; error_code ec;
    if (aborting) { ec = asio::error::operation_aborted; n = src.chance(1, 3) ? src.below(std::uint32_t(offered.size() + 1)) : 0; }
    else
    {
      switch (src.weighted({4, 3, 2, 1}))
      {
        case 0: n = 1 + src.below(std::uint32_t(std::min<std::size_t>(offered.size(), 6))); break;
        case 1: n = 1 + src.below(std::uint32_t(offered.size())); break;
        case 2: n = offered.size(); break;
        case 3: n = zero++ < 3 ? 0 : offered.size(); break;
      }
      n = std::min(n, offered.size());
      if (src.chance(1, 12)) { ec = src.flip() ? error_code(asio::error::eof) : error_code(asio::error::connection_reset); if (src.flip()) n = 0; }
    }
    for (std::size_t i = 0; i < n; i++) if (reading) *offered[i] = byte(done + i); else sent.push_back(*offered[i]);
    done += n; failed = ec; c.log("step ", steps, " transfers ", n, " ", ec.message());
    return {ec, n};
  }
  static unsigned char byte(std::size_t i) { return static_cast<unsigned char>(i * 31 + 17); }
  void start(handler_t hd)
  {
    switch (hold ? 0 : src.weighted({3, 1}))
    {
      case 0:
        reaction = int(src.below(3)); slot = hd.get_cancellation_slot(); h.emplace(std::move(hd));
        if (slot.is_connected()) slot.assign([this](asio::cancellation_type ct)
        {
          cancels++; cancel_seen = true;
          if (!h || reaction == 2) return;
          finish(true, reaction == 1);
        });
        break;
      case 1: // through the immediate executor
      {
        auto r = transfer(); auto ex = asio::get_associated_immediate_executor(hd, hd.get_executor());
        asio::dispatch(ex, [hd = std::move(hd), r]() mutable { std::move(hd)(r.first, r.second); });
        break;
      }
    }
  }
  void finish(bool aborting, bool posted)
  {
    if (!h) return;
    if (slot.is_connected()) slot.clear();
    auto hd = std::move(*h); h.reset(); auto r = transfer(aborting);
    if (cancel_seen && !r.first && done < m.want.size()) stop_expected = true; // told to stop, which the step didn't
    if (posted) { auto ex = hd.get_executor(); asio::post(ex, [hd = std::move(hd), r]() mutable { std::move(hd)(r.first, r.second); }); }
    else std::move(hd)(r.first, r.second);
  }
  void ready(cobalt::handler<error_code, std::size_t> hd) { if (hold || !src.chance(1, 4)) { steps--; return; } auto r = transfer(); hd(r.first, r.second); }

  static scripted & self(void * p) { return *static_cast<scripted *>(p); }
  io::read_op read_some(io::mutable_buffer_sequence b) override { return {b, this, [](void * p, io::mutable_buffer_sequence b, handler_t h) { self(p).offer(0, b); self(p).start(std::move(h)); }, [](void * p, io::mutable_buffer_sequence b, cobalt::handler<error_code, std::size_t> h) { self(p).offer(0, b); self(p).ready(std::move(h)); }}; }
  io::write_op write_some(io::const_buffer_sequence b) override { return {b, this, [](void * p, io::const_buffer_sequence b, handler_t h) { self(p).offer(0, b); self(p).start(std::move(h)); }, [](void * p, io::const_buffer_sequence b, cobalt::handler<error_code, std::size_t> h) { self(p).offer(0, b); self(p).ready(std::move(h)); }}; }
  io::read_at_op read_some_at(std::uint64_t o, io::mutable_buffer_sequence b) override { return {o, b, this, [](void * p, std::uint64_t o, io::mutable_buffer_sequence b, handler_t h) { self(p).offer(o, b); self(p).start(std::move(h)); }, [](void * p, std::uint64_t o, io::mutable_buffer_sequence b, cobalt::handler<error_code, std::size_t> h) { self(p).offer(o, b); self(p).ready(std::move(h)); }}; }
  io::write_at_op write_some_at(std::uint64_t o, io::const_buffer_sequence b) override { return {o, b, this, [](void * p, std::uint64_t o, io::const_buffer_sequence b, handler_t h) { self(p).offer(o, b); self(p).start(std::move(h)); }, [](void * p, std::uint64_t o, io::const_buffer_sequence b, cobalt::handler<error_code, std::size_t> h) { self(p).offer(o, b); self(p).ready(std::move(h)); }}; }
};

struct outcome { bool set = false; error_code ec; std::size_t n = 0; };
template<typename Op> cobalt::promise<void> transfer(Op op, outcome & o, bool noted)
{
  co_await cobalt::this_coro::throw_if_cancelled(false);
  error_code ec; std::size_t n = 0;
  auto r = co_await cobalt::as_tuple(op); std::tie(ec, n) = r;
  o = {true, ec, n};
}
static void property(Src & src, Ctx & c)
{
  Env e; memory m(src); auto kind = src.below(4); bool reading = kind % 2 == 0, at = kind > 1; std::uint64_t off = src.chance(1, 4) ? 0xFFFFFFFFFFull + src.below(100) : src.below(5000);
  scripted s(src, c, e, m, at, reading, off); outcome o; bool cancelled = false, dropped = false, in_progress = false;
  {
    auto mb = m.buffers<asio::mutable_buffer>(); auto cb = m.buffers<asio::const_buffer>();
    std::optional<cobalt::promise<void>> p;
    switch (kind)
    {
      case 0: p.emplace(transfer(io::read(s, mb), o, false)); break;
      case 1: p.emplace(transfer(io::write(s, cb), o, false)); break;
      case 2: p.emplace(transfer(io::read_at(s, off, mb), o, false)); break;
      case 3: p.emplace(transfer(io::write_at(s, off, cb), o, false)); break;
    }
    bool abandon = src.chance(1, 10); int cancel_at = src.chance(1, 4) ? int(src.below(6)) : -1;
    for (int i = 0; i < 400 && !o.set && !c.failed; i++)
    {
      if (i == cancel_at) { c.log("cancel"); cancelled = true; in_progress = s.done && s.done < m.want.size(); const asio::cancellation_type t[] = {asio::cancellation_type::terminal, asio::cancellation_type::all, asio::cancellation_type::partial, asio::cancellation_type::total}; p->cancel(t[src.below(4)]); continue; }
      if (abandon && i > 2) { dropped = true; break; }
      if (s.h && !src.flip()) s.finish(false, src.flip()); else e.step(1 + src.below(2));
    }
    if (dropped) { +std::move(*p); p.reset(); s.hold = true; e.settle(); while (s.h) { if (s.slot.is_connected()) s.slot.clear(); auto hd = std::move(*s.h); s.h.reset(); { auto x = std::move(hd); } e.settle(); } c.label("dropped"); }
    if (!c.failed && !dropped) PBT_CHECK(c, o.set, "it never completed");
  }
  e.settle();
  if (c.failed) return;
  if (o.set)
  {
    PBT_CHECK(c, o.n == s.done, "it reports " << o.n << " of " << s.done << " bytes");
    if (s.failed) PBT_CHECK(c, o.ec == s.failed, "it reports " << o.ec.message() << " after the stream reported " << s.failed.message());
    else if (o.ec) PBT_CHECK(c, o.ec == asio::error::operation_aborted && cancelled, "it reports " << o.ec.message() << ", which the stream didn't");
    else PBT_CHECK(c, s.done == m.want.size(), "it completed after " << s.done << " of " << m.want.size() << " bytes");
    if (s.stop_expected) c.label("cancel_ignored"); PBT_CHECK(c, !s.more_after_stop, "it continued after the cancellation");
    if (o.ec) c.label("failed");
  }
  // every byte
  auto expect = m.before; if (reading) for (std::size_t i = 0; i < s.done; i++) expect[std::size_t(m.want[i] - m.mem.data())] = scripted::byte(i);
  PBT_CHECK(c, expect == m.mem, "other memory was changed");
  if (!reading) { PBT_CHECK(c, s.sent.size() == s.done); for (std::size_t i = 0; i < s.sent.size(); i++) PBT_CHECK(c, s.sent[i] == *m.want[i]); }
  if (cancelled) c.label("cancelled"); if (in_progress) c.label("cancelled_between"); if (m.want.empty()) { c.label("empty"); PBT_CHECK(c, s.steps == 0 && (!o.set || cancelled || !o.ec)); }
  const char * names[] = {"read", "write", "read_at", "write_at"}; c.label(names[kind]);
  if (s.steps > 2) c.mark_nontrivial();
  e.check_memory(c);
}
int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C18", {
    {"scripted", "reads and writes (with and without offset) of 0-20 scattered buffers over a stream transferring any part per step - at once, through the immediate executor, later, inline or posted - with failures, partial failures, zero-length steps, cancellations and abandonment; non-trivial: three or more steps", 1200000, 20000000, property},
  });
}
