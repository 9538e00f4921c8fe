// C19: byte streams (pipes, local and TCP sockets, stream_file on a pipe), packet sockets, socket options.
// Byte k of a direction is always byte_at(k), so every byte that arrives says where it belongs.
#include "gate.hpp"
#include "io_request.hpp"
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/io/pipe.hpp>
#include <boost/cobalt/io/stream_file.hpp>
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/io/datagram_socket.hpp>
#include <boost/cobalt/io/seq_packet_socket.hpp>
#include <boost/asio/ip/tcp.hpp>
#include <boost/asio/ip/udp.hpp>
#include <boost/asio/basic_socket_acceptor.hpp>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <netinet/tcp.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace env;
namespace io = cobalt::io;
using pbt::Src; using pbt::Ctx;
static int open_fds() { int n = 0; auto d = ::opendir("/proc/self/fd"); while (::readdir(d)) n++; ::closedir(d); return n; }
static unsigned char byte_at(std::size_t k) { return static_cast<unsigned char>((k * 2654435761u) >> 11 ^ k); }
static bool ready(int fd, short what) { pollfd p{fd, what, 0}; ::poll(&p, 1, 0); return p.revents & (what | POLLERR); }

struct end_t // one end of a connection
{
  std::optional<io::stream_socket> s; std::optional<io::readable_pipe> rp; std::optional<io::writable_pipe> wp; std::optional<io::stream_file> f;
  bool closed = false, shut_send = false, shut_recv = false;
  io::read_stream * r() { return s ? static_cast<io::read_stream *>(&*s) : rp ? static_cast<io::read_stream *>(&*rp) : f ? static_cast<io::read_stream *>(&*f) : nullptr; }
  io::write_stream * w() { return s ? static_cast<io::write_stream *>(&*s) : wp ? static_cast<io::write_stream *>(&*wp) : f ? static_cast<io::write_stream *>(&*f) : nullptr; }
  template<typename F> auto visit(F && g) { return s ? g(*s) : rp ? g(*rp) : wp ? g(*wp) : g(*f); }
  int fd() { return visit([](auto & x) { return int(x.native_handle()); }); }
};
struct way { std::size_t committed = 0, read = 0; bool lost = false, eof_seen = false, ended[2] = {}; }; // ended: asio does not poll again once the system said so (writing, reading) // one direction
struct activity
{
  bool busy = false, all = false, cancel = false, soft = false; /* soft: only what was pending at that moment */ std::size_t size = 0; int id = 0; std::optional<cobalt::promise<void>> p;
};
struct world
{
  Src & src; Ctx & c; Env & e; int kind; end_t ends[2]; way ways[2]; activity reads[2], writes[2], waits[2]; // ways[k]: written by ends[k], reads[k]: by ends[k]
  std::size_t total = 0; bool duplex; int errors = 0;
  world(Src & s, Ctx & c, Env & e, int kind) : src(s), c(c), e(e), kind(kind), duplex(kind == 1 || kind == 2) {}

  cobalt::promise<void> connect_tcp(io::endpoint ep, bool ranged, bool & ok)
  {
    error_code ec;
    if (ranged)
    {
      io::endpoint_sequence seq; if (src.flip()) seq.push_back(io::endpoint(io::tcp_v4, "127.0.0.1", 1u)); seq.push_back(ep);
      auto r = co_await cobalt::as_tuple(ends[0].s->connect(seq)); ec = std::get<0>(r); io::endpoint got = std::get<1>(r);
      if (!ec) PBT_CHECK(c, got.size() == ep.size() && !std::memcmp(got.data(), ep.data(), ep.size()), "connected to another endpoint than reported");
    }
    else { auto r = co_await cobalt::as_tuple(ends[0].s->connect(ep)); ec = std::get<0>(r); }
    PBT_CHECK(c, !ec, "connect: " << ec.message()); ok = true;
  }
  bool setup()
  {
    auto ex = e.ctx.get_executor(); auto & a = ends[0]; auto & b = ends[1];
    switch (kind)
    {
      case 0: case 3:
      {
        auto p = io::pipe(ex); if (!p) { PBT_CHECK(c, false, "pipe: " << p.error().message()); return false; }
        ::fcntl(p->second.native_handle(), F_SETPIPE_SZ, 4096);
        if (kind == 0) { a.wp.emplace(std::move(p->second)); b.rp.emplace(std::move(p->first)); }
        else { a.f.emplace(*p->second.release(), ex); b.f.emplace(*p->first.release(), ex); }
        return true;
      }
      case 1:
      {
        if (src.flip()) { auto p = io::make_pair(io::local_stream); if (!p) return false; a.s.emplace(std::move(p->first)); b.s.emplace(std::move(p->second)); }
        else { a.s.emplace(ex); b.s.emplace(ex); auto r = io::connect_pair(io::local_stream, *a.s, *b.s); PBT_CHECK(c, r.has_value()); }
        break;
      }
      default:
      {
        asio::ip::tcp::acceptor acc(e.ctx, asio::ip::tcp::endpoint(asio::ip::address_v4::loopback(), 0)); a.s.emplace(ex); b.s.emplace(ex); bool ok = false, acc_ok = false; int fd = -1;
        acc.async_accept([&](error_code ec, asio::ip::tcp::socket s) { acc_ok = !ec; if (!ec) fd = s.release(); });
        io::endpoint ep = acc.local_endpoint(); auto p = connect_tcp(ep, src.flip(), ok);
        for (int i = 0; i < 1000 && !(ok && acc_ok) && !c.failed; i++) { e.settle(); if (!ok || !acc_ok) ::usleep(1000); }
        PBT_CHECK(c, ok && acc_ok, "connecting to a listening endpoint never completed"); if (c.failed) return false;
        auto r = b.s->assign(io::tcp_v4, fd); PBT_CHECK(c, r.has_value(), r.error().message());
        auto x = a.s->local_endpoint(), y = b.s->remote_endpoint(), z = a.s->remote_endpoint();
        PBT_CHECK(c, x && y && x->size() == y->size() && !std::memcmp(x->data(), y->data(), x->size()), "the two ends disagree about an endpoint");
        PBT_CHECK(c, z && z->size() == ep.size() && !std::memcmp(z->data(), ep.data(), ep.size()), "remote_endpoint is not what was connected to");
        break;
      }
    }
    for (auto & x : ends) { auto r = x.s->set_send_buffer_size(4096); PBT_CHECK(c, r.has_value()); auto q = x.s->set_receive_buffer_size(4096); PBT_CHECK(c, q.has_value()); }
    return true;
  }
  static bool reset(error_code ec) { return ec == asio::error::connection_reset || ec == asio::error::broken_pipe; }

  cobalt::promise<void> do_write(int k)
  {
    auto & w = writes[k]; auto & d = ways[k]; auto & me = ends[k]; auto & peer = ends[1 - k]; bool all = w.all = src.flip();
    request q(src, 0, 3000); w.size = q.size; std::size_t at = d.committed; { data_t t(q.size); for (std::size_t i = 0; i < q.size; i++) t[i] = byte_at(at + i); q.put(t.data(), t.size()); }
    auto bs = q.buffers<asio::const_buffer>(); w.busy = true; w.cancel = false; c.log("end ", k, " writes ", q.size, all ? " (all)" : "");
    if (peer.closed || peer.shut_recv) ways[1 - k].lost = true; // may be answered with a reset
    bool was_closed = me.closed, was_shut = me.shut_send; error_code ec; std::size_t n = 0;
    if (all) { auto r = co_await cobalt::as_tuple(io::write(*me.w(), bs)); std::tie(ec, n) = r; }
    else { auto r = co_await cobalt::as_tuple(me.w()->write_some(bs)); std::tie(ec, n) = r; }
    w.busy = false; d.committed += n; total += n; if (ec && ec != asio::error::operation_aborted) d.ended[0] = true; c.log("end ", k, " wrote ", n, ": ", ec.message());
    PBT_CHECK(c, n <= q.size, "wrote more than there was"); PBT_CHECK(c, d.read <= d.committed, "a write of " << n << " bytes said it transferred fewer than were read");
    if (ec == asio::error::operation_aborted) PBT_CHECK(c, w.cancel, "a write was aborted that nobody cancelled");
    else if (was_closed) PBT_CHECK(c, ec || !q.size, "writing to a closed object works"); else if (ec && me.closed) {} // between two parts
    else if (ec) { errors++; PBT_CHECK(c, reset(ec) && (peer.closed || me.shut_send || peer.shut_recv || d.lost), "write failed: " << ec.message()); }
    else { PBT_CHECK(c, !was_shut || !q.size, "writing after shutdown works"); if (all) PBT_CHECK(c, n == q.size, "wrote only " << n << " of " << q.size); else PBT_CHECK(c, n || !q.size, "wrote nothing"); }
    if (!all && ec) PBT_CHECK(c, n == 0, "an error with bytes");
  }
  cobalt::promise<void> do_read(int k, bool drain = false)
  {
    auto & r_ = reads[k]; auto & d = ways[1 - k]; auto & me = ends[k]; auto & peer = ends[1 - k]; bool all = r_.all = !drain && src.flip(); auto & pw = writes[1 - k];
    request q = drain ? request(900) : request(src, 77, 3000), before = q; r_.size = q.size; auto bs = q.buffers<asio::mutable_buffer>(); r_.busy = true; r_.cancel = false; c.log("end ", k, " reads ", q.size, all ? " (all)" : "");
    bool was_closed = me.closed; error_code ec; std::size_t n = 0;
    if (all) { auto r = co_await cobalt::as_tuple(io::read(*me.r(), bs)); std::tie(ec, n) = r; }
    else { auto r = co_await cobalt::as_tuple(me.r()->read_some(bs)); std::tie(ec, n) = r; }
    r_.busy = false; if (ec && ec != asio::error::operation_aborted) d.ended[1] = true; c.log("end ", k, " read ", n, ": ", ec.message());
    PBT_CHECK(c, n <= q.size, "read more than fits"); if (n > q.size) co_return;
    PBT_CHECK(c, d.read + n <= d.committed + (pw.busy ? pw.size : 0), "read " << n << " bytes at " << d.read << " of " << d.committed);
    { data_t t(n); for (std::size_t i = 0; i < n; i++) t[i] = byte_at(d.read + i); before.put(t.data(), n); }
    PBT_CHECK(c, q.mem == before.mem, "other bytes than those written were read (or memory beyond them touched)"); d.read += n;
    if (ec == asio::error::operation_aborted) PBT_CHECK(c, r_.cancel, "a read was aborted that nobody cancelled");
    else if (was_closed) PBT_CHECK(c, ec || !q.size, "reading from a closed object works"); else if (ec && me.closed) {}
    else if (ec == asio::error::eof)
    {
      d.eof_seen = true; errors++;
      PBT_CHECK(c, peer.closed || peer.shut_send || me.shut_recv, "end of file although the peer is open");
      PBT_CHECK(c, d.read >= d.committed || me.shut_recv || d.lost, "end of file after " << d.read << " of " << d.committed << " bytes");
    }
    else if (ec) { errors++; PBT_CHECK(c, reset(ec) && (d.lost || peer.closed), "read failed: " << ec.message()); }
    else { PBT_CHECK(c, all ? n == q.size : n || !q.size, "read only " << n << " of " << q.size << " without error"); }
  }
  cobalt::promise<void> do_wait(int k)
  {
    auto & w = waits[k]; w.all = src.flip(); w.busy = true; w.cancel = false; auto & me = ends[k]; bool was_closed = me.closed; c.log("end ", k, " waits to ", w.all ? "write" : "read");
    auto r = co_await cobalt::as_tuple(me.s->wait(w.all ? io::socket::wait_type::wait_write : io::socket::wait_type::wait_read)); error_code ec = std::get<0>(r);
    w.busy = false; c.log("end ", k, " waited: ", ec.message());
    if (ec == asio::error::operation_aborted) PBT_CHECK(c, w.cancel, "a wait was aborted that nobody cancelled"); else if (was_closed) PBT_CHECK(c, ec); else PBT_CHECK(c, !ec, ec.message());
  }
  bool can_read(int k) { return duplex || k == 1; }
  bool can_write(int k) { return duplex || k == 0; }
  bool idle(int k) { return !reads[k].busy && !writes[k].busy && !waits[k].busy; }
  void cancelled(int k) { reads[k].soft = !reads[k].cancel || reads[k].soft; writes[k].soft = !writes[k].cancel || writes[k].soft; reads[k].cancel = writes[k].cancel = waits[k].cancel = true; }
  void close(int k)
  {
    auto & me = ends[k]; auto & in = ways[1 - k]; c.log("close ", k); if (me.closed) return;
    if (in.read < in.committed || writes[1 - k].busy) ways[k].lost = in.lost = true;
    cancelled(k); auto r = me.visit([](auto & x) { return x.close(); }); PBT_CHECK(c, r.has_value(), r.error().message()); me.closed = true;
    PBT_CHECK(c, !me.visit([](auto & x) { return x.is_open(); }));
  }
  // what is pending must not be able to proceed
  std::string stuck()
  {
    for (int k = 0; k < 2; k++)
    {
      auto & me = ends[k]; auto & in = ways[1 - k];
      if (me.closed) { if (!idle(k)) return "an operation is pending on a closed object"; continue; }
      if (reads[k].busy)
      {
        if (reads[k].cancel && !(reads[k].all && reads[k].soft)) return "a cancelled read is pending"; if (!reads[k].size) return "a read of nothing is pending";
        if (in.committed - in.read >= (reads[k].all ? reads[k].size : 1) && !in.lost) return "a read is pending although enough was written";
        if (!in.ended[1] && ready(me.fd(), POLLIN | POLLHUP)) return "a read is pending although there is something to read";
      }
      if (writes[k].busy) { if (writes[k].cancel && !(writes[k].all && writes[k].soft)) return "a cancelled write is pending"; if (!writes[k].size) return "a write of nothing is pending"; if (!ways[k].ended[0] && ready(me.fd(), POLLOUT)) return "a write is pending although there is room"; }
      if (waits[k].busy) { if (waits[k].cancel) return "a cancelled wait is pending"; if (!(waits[k].all ? ways[k].ended[0] : in.ended[1]) && ready(me.fd(), waits[k].all ? POLLOUT : POLLIN | POLLHUP)) return "a wait is pending although the socket is ready"; }
    }
    return "";
  }
  void settle()
  {
    e.settle(); auto s = stuck();
    for (int i = 0; i < 300 && !s.empty() && !c.failed; i++) { ::usleep(i < 20 ? 50 : 3000); e.settle(); s = stuck(); }
    PBT_CHECK(c, s.empty(), s);
  }
  void launch(activity & a, cobalt::promise<void> p) { a.p.reset(); a.p.emplace(std::move(p)); }
  void run()
  {
    if (!setup()) return;
    for (int steps = 8 + int(src.below(60)); steps-- && !c.failed;)
    {
      int k = int(src.below(2)); auto & me = ends[k];
      switch (src.weighted({10, 10, 8, 4, 2, 2, 1, 1, 1, 2, 1}))
      {
        case 0: if (can_write(k) && !writes[k].busy) launch(writes[k], do_write(k)); break;
        case 1: if (can_read(k) && !reads[k].busy) launch(reads[k], do_read(k)); break;
        case 2: settle(); break;
        case 3: e.step(1 + src.below(4)); break;
        case 4: // cancel one operation
        {
          auto & a = src.below(3) == 0 ? waits[k] : src.flip() ? reads[k] : writes[k]; if (!a.busy) break;
          c.label("cancel_one"); c.log("cancel one of ", k); a.cancel = true; a.soft = false; if (src.flip() || !a.p) { if (a.p) a.p->cancel(); } else a.p.reset();
          break;
        }
        case 5: if (!me.closed) { c.label("cancel_all"); c.log("cancel ", k); cancelled(k); auto r = me.visit([](auto & x) { return x.cancel(); }); PBT_CHECK(c, r.has_value(), r.error().message()); } break;
        case 6: if (src.chance(1, 2)) { c.label("close"); close(k); } break;
        case 7: // shutdown
        {
          if (!me.s || me.closed) break;
          bool snd = src.chance(2, 3), rcv = !snd || src.chance(1, 4); auto r = me.s->shutdown(snd && rcv ? io::socket::shutdown_type::shutdown_both : snd ? io::socket::shutdown_type::shutdown_send : io::socket::shutdown_type::shutdown_receive);
          c.label("shutdown"); c.log("shutdown ", k, snd ? " send" : "", rcv ? " receive" : ""); if (r) { me.shut_send |= snd; me.shut_recv |= rcv; } else PBT_CHECK(c, r.error() == asio::error::not_connected, r.error().message());
          if (rcv && r) ways[k].lost = ways[1 - k].lost = true;
          break;
        }
        case 8: // move, release & assign
        {
          if (!idle(k) || me.closed) break;
          auto fd = me.fd(); c.label("moved"); c.log("move ", k); auto ex = e.ctx.get_executor();
          auto mv = [&](auto & o) { using T = std::decay_t<decltype(*o)>; std::optional<T> t(std::move(*o)); PBT_CHECK(c, !o->is_open()); o.reset(); o.emplace(std::move(*t)); };
          auto rl = [&](auto & o, auto && again) { auto r = o->release(); PBT_CHECK(c, r.has_value() && *r == fd && !o->is_open()); again(*r); };
          if (src.flip()) { if (me.s) mv(me.s); else if (me.rp) mv(me.rp); else if (me.wp) mv(me.wp); else mv(me.f); }
          else if (me.s) { io::protocol_type pr = kind == 1 ? io::protocol_type(io::local_stream) : io::protocol_type(io::tcp_v4); rl(me.s, [&](int h) { if (src.flip()) { auto a = me.s->assign(pr, h); PBT_CHECK(c, a.has_value()); } else { me.s.reset(); me.s.emplace(h, pr, ex); } }); }
          else { auto go = [&](auto & o) { rl(o, [&](int h) { if (src.flip()) { auto a = o->assign(h); PBT_CHECK(c, a.has_value()); } else { o.reset(); o.emplace(h, ex); } }); }; if (me.rp) go(me.rp); else if (me.wp) go(me.wp); else go(me.f); }
          PBT_CHECK(c, me.fd() == fd, "moved to another descriptor");
          break;
        }
        case 9: if (me.s && !waits[k].busy) launch(waits[k], do_wait(k)); break;
        case 10: // bytes_readable
        {
          if (!me.s || me.closed || reads[k].busy || writes[1 - k].busy) break;
          auto & in = ways[1 - k]; std::size_t want = in.committed - in.read; if (in.lost) break; boost::system::result<std::size_t> r = me.s->bytes_readable();
          for (int i = 0; i < 300 && r && *r < want; i++) { ::usleep(1000); r = me.s->bytes_readable(); }
          PBT_CHECK(c, r.has_value() && *r == want, "bytes_readable says " << (r ? *r : 0) << " of " << want); break;
        }
      }
      int n = 0; for (int j = 0; j < 2; j++) n += reads[j].busy + writes[j].busy; if (n > 1) c.label("concurrent");
    }
    if (c.failed) return;
    // finish: nothing more is written, everything else is read
    settle(); for (int k = 0; k < 2 && !c.failed; k++) { waits[k].cancel = reads[k].cancel = writes[k].cancel = true; reads[k].soft = writes[k].soft = false; waits[k].p.reset(); reads[k].p.reset(); writes[k].p.reset(); }
    settle(); if (c.failed) return;
    for (int k = 0; k < 2 && !c.failed; k++) if (can_write(k) && !ends[k].closed && !ends[1 - k].closed && !ways[k].lost)
    {
      if (duplex) { auto r = ends[k].s->shutdown(io::socket::shutdown_type::shutdown_send); if (r || ends[k].shut_send) ends[k].shut_send = true; }
      else close(k);
      for (int i = 0; i < 2000 && !ways[k].eof_seen && !c.failed; i++) { launch(reads[1 - k], do_read(1 - k, true)); settle(); }
      PBT_CHECK(c, ways[k].eof_seen && (ways[k].lost || ways[k].read == ways[k].committed), "no end of file");
    }
    if (total > 2000) c.mark_nontrivial();
    static const char * const names[] = {"pipe", "local", "tcp", "stream_file"}; c.label(names[kind]); if (errors) c.label("ended");
  }
  ~world() { for (int k = 0; k < 2; k++) { reads[k].p.reset(); writes[k].p.reset(); waits[k].p.reset(); } e.settle(); } // cancels what is pending
};
static void streams(Src & src, Ctx & c)
{
  auto fds = open_fds();
  {
    Env e; int kind = int(src.weighted({4, 5, 3, 3}));
    { world w(src, c, e, kind); w.run(); }
    e.settle(); if (!c.failed) e.check_memory(c);
  }
  if (!c.failed) PBT_CHECK(c, open_fds() == fds, "descriptors were leaked");
}
// ---- packets: a message arrives whole (cut to the room there is), once and in order
struct packets_world
{
  struct dir_t { std::deque<data_t> sent; std::size_t sending = 0, got = 0; bool busy_s = false, busy_r = false, cancel_s = false, cancel_r = false; std::size_t in_flight() const { return sent.size() - got; } std::optional<cobalt::promise<void>> ps, pr; };
  Src & src; Ctx & c; Env & e; int kind; std::optional<io::datagram_socket> d[2]; std::optional<io::seq_packet_socket> q[2]; dir_t ways[2]; bool closed[2] = {false, false}; int received = 0; unsigned char next = 1;
  packets_world(Src & s, Ctx & c, Env & e, int kind) : src(s), c(c), e(e), kind(kind) {}
  io::socket & sock(int k) { return kind == 1 ? static_cast<io::socket &>(*q[k]) : static_cast<io::socket &>(*d[k]); }
  cobalt::promise<void> connect(int k, io::endpoint ep, bool & ok) { auto r = co_await cobalt::as_tuple(d[k]->connect(ep)); PBT_CHECK(c, !std::get<0>(r), "connect: " << std::get<0>(r).message()); ok = true; }
  bool setup()
  {
    auto ex = e.ctx.get_executor();
    if (kind == 0) { auto p = io::make_pair(io::local_datagram); if (!p) return false; d[0].emplace(std::move(p->first)); d[1].emplace(std::move(p->second)); }
    else if (kind == 1) { for (auto & x : q) x.emplace(ex); auto r = io::connect_pair(io::local_seqpacket, *q[0], *q[1]); PBT_CHECK(c, r.has_value(), r.error().message()); if (!r) return false; }
    else
    {
      for (auto & x : d) x.emplace(io::endpoint(io::udp_v4, "127.0.0.1", 0), ex); auto a = d[0]->local_endpoint(), b = d[1]->local_endpoint(); if (!a || !b) { PBT_CHECK(c, false, "local_endpoint"); return false; }
      bool ok[2] = {false, false}; auto p = connect(0, *b, ok[0]); auto r = connect(1, *a, ok[1]); for (int i = 0; i < 300 && !(ok[0] && ok[1]); i++) { e.settle(); if (i) ::usleep(500); } PBT_CHECK(c, ok[0] && ok[1], "connect never completed"); return ok[0] && ok[1];
    }
    for (int k = 0; k < 2; k++) { auto r = sock(k).set_send_buffer_size(4096); PBT_CHECK(c, r.has_value()); }
    return true;
  }
  cobalt::promise<void> send(int k)
  {
    auto & w = ways[k]; request r(src, 0, 900); if (r.parts.size() > 60) r = request(10 + src.below(500)); if (kind == 1 && !r.size) co_return;
    { data_t t(r.size); for (auto & b : t) b = next += 7; r.put(t.data(), t.size()); w.sent.push_back(t); }
    w.busy_s = true; w.cancel_s = false; c.log("end ", k, " sends ", r.size); auto bs = r.buffers<asio::const_buffer>(); bool was = closed[k], peer_closed = closed[1 - k]; error_code ec; std::size_t n = 0, at = w.sent.size();
    if (kind == 1) { auto x = co_await cobalt::as_tuple(q[k]->send(0, bs)); std::tie(ec, n) = x; } else { auto x = co_await cobalt::as_tuple(d[k]->send(bs)); std::tie(ec, n) = x; }
    w.busy_s = false; c.log("end ", k, " sent ", n, ": ", ec.message());
    if (ec) { PBT_CHECK(c, w.got < at, "a send failed whose message arrived"); if (w.sent.size() == at) w.sent.pop_back(); PBT_CHECK(c, w.cancel_s || was || peer_closed || closed[1 - k] || closed[k], "send failed: " << ec.message()); PBT_CHECK(c, ec != asio::error::operation_aborted || w.cancel_s); }
    else { PBT_CHECK(c, n == r.size, "sent " << n << " of " << r.size); PBT_CHECK(c, !was, "sent on a closed socket"); }
  }
  cobalt::promise<void> receive(int k)
  {
    auto & w = ways[1 - k]; request r(src, 50, 900); if (r.parts.size() > 60 || !r.size) r = request(src.chance(1, 4) ? 5000 : 1 + src.below(900)); auto before = r; auto bs = r.buffers<asio::mutable_buffer>();
    w.busy_r = true; w.cancel_r = false; bool peek = kind == 1 && src.chance(1, 5), flags = kind == 1 && src.flip(), was = closed[k]; c.log("end ", k, " receives ", r.size, peek ? " (peek)" : ""); error_code ec; std::size_t n = 0; io::socket::message_flags out = 0;
    if (kind == 1) { auto in = peek ? io::socket::message_peek : 0; if (flags) { auto x = co_await cobalt::as_tuple(q[k]->receive(in, out, bs)); std::tie(ec, n) = x; } else { auto x = co_await cobalt::as_tuple(q[k]->receive(in, bs)); std::tie(ec, n) = x; } }
    else { auto x = co_await cobalt::as_tuple(d[k]->receive(bs)); std::tie(ec, n) = x; }
    w.busy_r = false; c.log("end ", k, " received ", n, ": ", ec.message());
    if (!ec && !n && kind == 1 && closed[1 - k]) { PBT_CHECK(c, w.got + w.busy_s >= w.sent.size(), "nothing received before all messages arrived"); }
    else if (ec) { PBT_CHECK(c, w.cancel_r || was || closed[k] || closed[1 - k], "receive failed: " << ec.message()); PBT_CHECK(c, ec != asio::error::operation_aborted || w.cancel_r); if (ec == asio::error::eof) PBT_CHECK(c, w.got + w.busy_s >= w.sent.size(), "end of file before all messages arrived"); }
    else
    {
      PBT_CHECK(c, !was, "received from a closed socket"); PBT_CHECK(c, w.got < w.sent.size(), "received a message nobody sent"); if (w.got >= w.sent.size()) co_return;
      auto & m = w.sent[w.got]; auto want = std::min(m.size(), r.size); PBT_CHECK(c, n == want, "received " << n << " of " << want << " bytes"); before.put(m.data(), want);
      if (kind == 1 && flags) PBT_CHECK(c, !!(out & MSG_TRUNC) == (m.size() > r.size), "flags " << out << " for a message of " << m.size() << " in " << r.size);
      if (!peek) { w.got++; received++; } else c.label("peek"); if (m.size() > r.size) c.label("cut");
    }
    PBT_CHECK(c, r.mem == before.mem, "other bytes than those sent were received");
  }
  std::string stuck()
  {
    for (int k = 0; k < 2; k++)
    {
      auto & out = ways[k]; auto & in = ways[1 - k]; if (closed[k]) { if (out.busy_s || in.busy_r) return "an operation is pending on a closed socket"; continue; }
      if (in.busy_r && in.cancel_r) return "a cancelled receive is pending"; if (out.busy_s && out.cancel_s) return "a cancelled send is pending";
      if (in.busy_r && !closed[1 - k] && in.in_flight() > (in.busy_s ? 1u : 0u)) return "a receive is pending although there is a message";
      if (out.busy_s && !closed[1 - k] && out.in_flight() <= 1) return "a send is pending although there is room";
    }
    return "";
  }
  void settle() { e.settle(); auto s = stuck(); for (int i = 0; i < 300 && !s.empty() && !c.failed; i++) { ::usleep(i < 20 ? 50 : 3000); e.settle(); s = stuck(); } PBT_CHECK(c, s.empty(), s); }
  void run()
  {
    if (!setup()) return;
    for (int steps = 8 + int(src.below(50)); steps-- && !c.failed;)
    {
      int k = int(src.below(2)); auto & out = ways[k]; auto & in = ways[1 - k];
      switch (src.weighted({10, 10, 6, 3, 2, 2, 1, 2}))
      {
        case 0: if (!out.busy_s && out.in_flight() < (kind == 2 ? 4 : 100)) { out.ps.reset(); out.ps.emplace(send(k)); } break;
        case 1: if (!in.busy_r) { in.pr.reset(); in.pr.emplace(receive(k)); } break;
        case 2: settle(); break;
        case 3: e.step(1 + src.below(3)); break;
        case 4: if (src.flip()) { if (out.busy_s) { out.cancel_s = true; out.ps->cancel(); c.label("cancel_one"); } } else if (in.busy_r) { in.cancel_r = true; if (src.flip()) in.pr->cancel(); else in.pr.reset(); c.label("cancel_one"); } break;
        case 5: if (!closed[k]) { c.log("cancel ", k); out.cancel_s = in.cancel_r = true; auto r = sock(k).cancel(); PBT_CHECK(c, r.has_value()); c.label("cancel_all"); } break;
        case 6: if (src.chance(1, 3)) { c.log("close ", k); out.cancel_s = in.cancel_r = true; auto r = sock(k).close(); PBT_CHECK(c, r.has_value()); closed[k] = true; c.label("close"); } break;
        case 7:
          if (out.busy_s || in.busy_r || closed[k]) break;
          if (kind == 1) { std::optional<io::seq_packet_socket> t(std::move(*q[k])); q[k].reset(); q[k].emplace(std::move(*t)); } else { std::optional<io::datagram_socket> t(std::move(*d[k])); d[k].reset(); d[k].emplace(std::move(*t)); }
          if (auto r = sock(k).release(); r) { auto a = sock(k).assign(kind == 0 ? io::protocol_type(io::local_datagram) : kind == 1 ? io::protocol_type(io::local_seqpacket) : io::protocol_type(io::udp_v4), *r); PBT_CHECK(c, a.has_value()); } else PBT_CHECK(c, false, "release");
          c.label("moved"); break;
      }
    }
    if (c.failed) return;
    settle(); if (received > 3) c.mark_nontrivial(); static const char * const names[] = {"datagram", "seqpacket", "udp"}; c.label(names[kind]);
  }
  ~packets_world() { for (auto & w : ways) { w.cancel_s = w.cancel_r = true; w.ps.reset(); w.pr.reset(); } e.settle(); }
};
static void packets(Src & src, Ctx & c)
{
  auto fds = open_fds();
  { Env e; int kind = int(src.below(3)); { packets_world w(src, c, e, kind); w.run(); } e.settle(); if (!c.failed) e.check_memory(c); }
  if (!c.failed) PBT_CHECK(c, open_fds() == fds, "descriptors were leaked");
}

// ---- options & failing to open
static void options(Src & src, Ctx & c)
{
  auto fds = open_fds();
  {
    Env e; auto ex = e.ctx.get_executor(); io::stream_socket st(ex), other(ex); io::datagram_socket dg(ex); io::readable_pipe warm(ex); int kind = int(src.below(4)); // tcp, local, udp, closed
    io::socket & s = kind == 2 ? static_cast<io::socket &>(dg) : st;
    if (kind < 3) { auto r = s.open(kind == 0 ? io::protocol_type(io::tcp_v4) : kind == 1 ? io::protocol_type(io::local_stream) : io::protocol_type(io::udp_v4)); PBT_CHECK(c, r.has_value() && s.is_open(), r.error().message()); c.mark_nontrivial(); }
    int fd = kind < 3 ? int(s.native_handle()) : -1;
    auto raw = [&](int level, int name, auto v) { socklen_t n = sizeof v; if (::getsockopt(fd, level, name, &v, &n)) { std::memset(&v, 0xff, sizeof v); return std::make_pair(false, v); } return std::make_pair(true, v); };
    for (int steps = 1 + int(src.below(12)); steps-- && !c.failed;)
    {
      bool v = src.flip(); int n = int(src.below(20000));
      auto flag = [&](const char * what, auto set, auto get, int level, int name)
      {
        auto r = (s.*set)(v); auto [ok, now] = raw(level, name, int(0)); c.log(what, v); auto g = (s.*get)(); PBT_CHECK(c, g.has_value() == ok, what << ": get says " << g.error().message()); if (kind == 3) PBT_CHECK(c, r.has_error(), what << " on a closed socket");
        if (ok) { if (r) PBT_CHECK(c, !!now == v, what << " was not set"); PBT_CHECK(c, g && *g == !!now, what << " is reported wrong"); }
      };
      auto number = [&](const char * what, auto set, auto get, int level, int name)
      {
        auto r = (s.*set)(n); auto [ok, now] = raw(level, name, int(0)); c.log(what, n); auto g = (s.*get)(); PBT_CHECK(c, g.has_value() == ok, what); if (kind == 3) PBT_CHECK(c, r.has_error(), what << " on a closed socket");
        if (ok && g) PBT_CHECK(c, (*g == now || (name == SO_SNDBUF || name == SO_RCVBUF ? *g == now / 2 : false) /* asio reports half on linux */) && (!r || now >= std::min(n, 4000) || name == SO_SNDLOWAT), what << " is " << *g << ", the system says " << now << " after setting " << n);
      };
      using S = io::socket;
      switch (src.below(12))
      {
        case 0: flag("keep_alive", &S::set_keep_alive, &S::get_keep_alive, SOL_SOCKET, SO_KEEPALIVE); break;
        case 1: flag("reuse_address", &S::set_reuse_address, &S::get_reuse_address, SOL_SOCKET, SO_REUSEADDR); break;
        case 2: flag("do_not_route", &S::set_do_not_route, &S::get_do_not_route, SOL_SOCKET, SO_DONTROUTE); break;
        case 3: flag("debug", &S::set_debug, &S::get_debug, SOL_SOCKET, SO_DEBUG); break;
        case 4: if (kind == 0 || kind == 3) flag("no_delay", &S::set_no_delay, &S::get_no_delay, IPPROTO_TCP, TCP_NODELAY); else { auto r = s.set_no_delay(v); PBT_CHECK(c, r.has_error()); } break;
        case 5: number("send_buffer_size", &S::set_send_buffer_size, &S::get_send_buffer_size, SOL_SOCKET, SO_SNDBUF); break;
        case 6: number("receive_buffer_size", &S::set_receive_buffer_size, &S::get_receive_buffer_size, SOL_SOCKET, SO_RCVBUF); break;
        case 7: n %= 100; n++; number("receive_low_watermark", &S::set_receive_low_watermark, &S::get_receive_low_watermark, SOL_SOCKET, SO_RCVLOWAT); break;
        case 8: number("send_low_watermark", &S::set_send_low_watermark, &S::get_send_low_watermark, SOL_SOCKET, SO_SNDLOWAT); break;
        case 9:
        {
          n %= 1000; auto r = s.set_linger(v, n); auto [ok, now] = raw(SOL_SOCKET, SO_LINGER, ::linger{}); auto g = s.get_linger(); PBT_CHECK(c, r.has_value() == (kind != 3) && g.has_value() == ok); if (!ok || !g) break;
          PBT_CHECK(c, !!now.l_onoff == v && (!v || now.l_linger == n), "linger was not set"); PBT_CHECK(c, g->first == v && (!v || g->second == n), "linger is reported wrong"); break;
        }
        case 10: { auto r = s.set_enable_connection_aborted(v); auto g = s.get_enable_connection_aborted(); PBT_CHECK(c, r.has_value() == (kind != 3) && g.has_value() == (kind != 3)); if (g) PBT_CHECK(c, *g == v, "enable_connection_aborted is reported wrong"); break; }
        case 11: // no descriptors left, or one end in use already: an error and nothing else
        {
          int mode = int(src.below(5)); rlimit old; ::getrlimit(RLIMIT_NOFILE, &old); int before = open_fds(); c.label("exhausted");
          if (mode < 3)
          {
            rlimit low = old; low.rlim_cur = static_cast<rlim_t>(::dup(0)); ::close(int(low.rlim_cur)); low.rlim_cur += src.below(2); ::setrlimit(RLIMIT_NOFILE, &low); bool got = true;
            try { if (mode == 0) got = io::pipe(ex).has_value(); else if (mode == 1) got = io::make_pair(io::local_stream).has_value(); else got = io::make_pair(io::local_datagram).has_value(); } catch (...) { ::setrlimit(RLIMIT_NOFILE, &old); PBT_CHECK(c, false, "threw instead of reporting an error"); break; }
            ::setrlimit(RLIMIT_NOFILE, &old); PBT_CHECK(c, !got, "made a pair out of nothing");
          }
          else
          {
            if (other.is_open()) break; bool used = st.is_open(); auto r = mode == 3 ? io::connect_pair(io::local_stream, st, other) : io::connect_pair(io::local_stream, other, st);
            PBT_CHECK(c, r.has_value() == !used, "connected a socket that is in use"); if (used) { PBT_CHECK(c, st.is_open() && int(st.native_handle()) == fd, "the socket in use was changed"); PBT_CHECK(c, !other.is_open(), "the other socket was left open"); } else { (void)st.close(); (void)other.close(); }
          }
          PBT_CHECK(c, open_fds() == before, "descriptors were leaked"); break;
        }
      }
    }
  }
  PBT_CHECK(c, open_fds() == fds, "descriptors were leaked");
}
int main(int argc, char ** argv)
{
  ::signal(SIGPIPE, SIG_IGN); // as asio leaves it to the program: pipes raise it, sockets do not
  return pbt::run_main(argc, argv, "C19", {
    {"streams", "8-67 steps (write, read, some or all, of 0-94 scattered buffers, wait, cancel one or all, close, shutdown, move, release and assign) on both ends of a pipe, local pair, TCP connection or stream_file over a pipe with small buffers; non-trivial: more than 2000 bytes transferred", 250000, 3000000, streams, false},
    {"packets", "8-57 steps (send and receive of scattered buffers smaller and larger than the messages, peek, cancel, close, move) on local datagram, local seq-packet and connected UDP sockets; non-trivial: four or more messages received", 60000, 1000000, packets, false},
    {"options", "setting and getting every socket option on TCP, local, UDP and closed sockets, compared with getsockopt; making pairs without free descriptors or from sockets in use; non-trivial: an open socket", 30000, 500000, options, false},
  });
}
