// C20: endpoints, protocols and the numeric resolver against inet_pton/inet_ntop, asio's own endpoints and the system.
#include "gate.hpp"
#include <boost/cobalt/io/endpoint.hpp>
#include <boost/cobalt/io/resolver.hpp>
#include <boost/cobalt/io/stream_socket.hpp>
#include <boost/cobalt/io/datagram_socket.hpp>
#include <boost/cobalt/io/seq_packet_socket.hpp>
#include <boost/asio/ip/tcp.hpp>
#include <boost/asio/ip/udp.hpp>
#include <boost/asio/local/stream_protocol.hpp>
#include <boost/asio/local/datagram_protocol.hpp>
#include <boost/asio/generic/stream_protocol.hpp>
#include <arpa/inet.h>
#include <net/if.h>
#include <sys/un.h>
#include <unistd.h>
#include <filesystem>
using namespace env;
namespace io = cobalt::io;
using pbt::Src; using pbt::Ctx;

static std::string v4_string(Src & s) { std::string r; for (int i = 0; i < 4; i++) r += (i ? "." : "") + std::to_string(s.chance(1, 3) ? 255 : s.below(256)); return r; }
static std::string v6_string(Src & s)
{
  static const char * const fixed[] = {"::", "::1", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255", "::ffff:255.255.255.255", "1::", "fe80::1", "ff02::fb", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8"};
  if (s.chance(1, 4)) return fixed[s.below(9)];
  std::string r; int gap = s.flip() ? int(s.below(8)) : -1; bool v4 = s.chance(1, 5); int groups = v4 ? 6 : 8; if (gap >= groups) gap = -1;
  for (int i = 0; i < groups; i++)
  {
    if (i == gap) { r += r.empty() || r.back() != ':' ? "::" : ":"; int skip = int(s.below(3)); i += skip; continue; }
    char b[8]; std::snprintf(b, sizeof b, s.flip() ? "%x" : s.flip() ? "%04X" : "%X", s.chance(1, 4) ? 0xffffu : s.below(s.flip() ? 65536 : 16)); if (!r.empty() && r.back() != ':') r += ':'; r += b;
  }
  if (v4) { if (!r.empty() && r.back() != ':') r += ':'; r += v4_string(s); }
  return r;
}
static std::string mutated(Src & s, std::string r)
{
  static const char alphabet[] = "0123456789abcfF:.% x-/";
  for (int n = int(s.below(3)); n-- >= 0;)
  {
    auto at = s.below(std::uint32_t(r.size() + 1)); char ch = s.chance(1, 8) ? '\0' : alphabet[s.below(sizeof(alphabet) - 1)];
    switch (s.below(4)) { case 0: r.insert(r.begin() + at, ch); break; case 1: if (at < r.size()) r[at] = ch; break; case 2: if (at < r.size()) r.erase(r.begin() + at); break; default: r += r.substr(0, s.below(40)); }
  }
  return r;
}
static bool parse4(const std::string & t, in_addr & a) { return t.find('\0') == t.npos && ::inet_pton(AF_INET, t.c_str(), &a) == 1; }
static bool parse6(const std::string & t, in6_addr & a) { return t.find('\0') == t.npos && ::inet_pton(AF_INET6, t.c_str(), &a) == 1; }

struct expected { int family, type, protocol; std::uint16_t port = 0; std::array<std::uint8_t, 16> addr{}; std::uint32_t scope = 0; std::string path; bool foreign = false; /* the size need not count the terminator */ };
template<typename F> static bool throws(F && f) { try { f(); return false; } catch (std::exception &) { return true; } }
template<auto P> static void matches(Ctx & c, const io::endpoint & ep, const expected & x)
{
  bool fam = P.family() == x.family || (P.family() == AF_UNSPEC && x.family != AF_UNIX), ok = fam && (!P.type() || !x.type || int(P.type()) == x.type) && (!P.protocol() || !x.protocol || int(P.protocol()) == x.protocol);
  auto p = get_if<P>(&ep); PBT_CHECK(c, (p != nullptr) == ok, "get_if of a " << x.family << "/" << x.type << "/" << x.protocol << " endpoint for " << P.family() << "/" << P.type() << "/" << P.protocol() << (ok ? " gives nothing" : " gives something"));
  bool threw = throws([&] { (void)io::get<P>(ep); }); PBT_CHECK(c, threw == !ok, "get " << (threw ? "throws" : "doesn't throw"));
  if (!ok || !p) return;
  auto v = io::get<P>(ep);
  for (int i = 0; i < 2; i++)
  {
    auto & a = i ? v : *p;
    if constexpr (P.family() == AF_UNIX) PBT_CHECK(c, a.path() == x.path, "path is " << std::string(a.path()) << ", should be " << x.path);
    else
    {
      PBT_CHECK(c, a.port() == x.port, "port is " << a.port() << ", should be " << x.port);
      char t[64]; ::inet_ntop(x.family, x.addr.data(), t, sizeof t); auto s = a.addr_str(); PBT_CHECK(c, std::string(s.c_str()) == t && s.size() == std::strlen(t), "addr_str is " << s.c_str() << ", should be " << t);
      if constexpr (P.family() == AF_INET) { auto n = a.addr(); PBT_CHECK(c, !std::memcmp(&n, x.addr.data(), 4), "other address"); }
      else if constexpr (P.family() == AF_INET6) PBT_CHECK(c, a.addr() == x.addr, "other address");
      else
      {
        PBT_CHECK(c, a.is_ipv4() == (x.family == AF_INET) && a.is_ipv6() == (x.family == AF_INET6)); auto n = a.addr();
        if (x.family == AF_INET) { std::array<std::uint8_t, 16> w{}; std::copy_n(x.addr.begin(), 4, w.begin() + 12); PBT_CHECK(c, n == w, "other address"); } else PBT_CHECK(c, n == x.addr, "other address");
      }
    }
  }
}
static std::size_t os_size(const expected & x) { return x.family == AF_INET ? sizeof(sockaddr_in) : x.family == AF_INET6 ? sizeof(sockaddr_in6) : offsetof(sockaddr_un, sun_path) + x.path.size() + 1; }
static void inspect(Ctx & c, const io::endpoint & ep, const expected & x, bool full = true)
{
  auto p = ep.protocol(); PBT_CHECK(c, p.family() == x.family && int(p.type()) == x.type && int(p.protocol()) == x.protocol, "protocol is " << p.family() << "/" << p.type() << "/" << p.protocol() << ", should be " << x.family << "/" << x.type << "/" << x.protocol);
  PBT_CHECK(c, ep.size() == os_size(x) || (x.family == AF_UNIX && x.foreign && ep.size() + 1 == os_size(x)), "size is " << ep.size() << ", the system needs " << os_size(x)); PBT_CHECK(c, ep.size() <= ep.capacity());
  if (x.family == AF_INET)
  {
    sockaddr_in s; std::memcpy(&s, ep.data(), sizeof s); PBT_CHECK(c, s.sin_family == AF_INET && ntohs(s.sin_port) == x.port && !std::memcmp(&s.sin_addr, x.addr.data(), 4), "the system sees another address");
  }
  else if (x.family == AF_INET6)
  {
    sockaddr_in6 s; std::memcpy(&s, ep.data(), sizeof s); PBT_CHECK(c, s.sin6_family == AF_INET6 && ntohs(s.sin6_port) == x.port && !std::memcmp(&s.sin6_addr, x.addr.data(), 16), "the system sees another address");
    PBT_CHECK(c, s.sin6_scope_id == x.scope, "the scope is " << s.sin6_scope_id << ", should be " << x.scope); PBT_CHECK(c, !s.sin6_flowinfo);
  }
  else PBT_CHECK(c, !std::memcmp(static_cast<const char *>(ep.data()) + offsetof(sockaddr_un, sun_path), x.path.c_str(), x.path.size() + !x.foreign), "the system sees another path");
  if (!full) return;
  matches<io::ip>(c, ep, x); matches<io::ip_v4>(c, ep, x); matches<io::ip_v6>(c, ep, x); matches<io::tcp>(c, ep, x); matches<io::tcp_v4>(c, ep, x); matches<io::tcp_v6>(c, ep, x); matches<io::udp>(c, ep, x); matches<io::udp_v4>(c, ep, x); matches<io::udp_v6>(c, ep, x);
  matches<io::local_stream>(c, ep, x); matches<io::local_datagram>(c, ep, x); matches<io::local_seqpacket>(c, ep, x); matches<io::local_protocol>(c, ep, x);
}
static void copies(Src & src, Ctx & c, const io::endpoint & ep, const expected & x)
{
  io::endpoint a(ep); inspect(c, a, x, false); io::endpoint b; PBT_CHECK(c, b.protocol().family() == AF_UNSPEC); b = a; inspect(c, b, x, false); io::endpoint d(a /* not const */); inspect(c, d, x, false); io::endpoint m(std::move(d)); inspect(c, m, x, false);
  io::endpoint_sequence seq; for (int i = 0; i < 3; i++) seq.push_back(ep); inspect(c, seq[src.below(3)], x, false);
  io::endpoint r; std::memcpy(r.data(), ep.data(), ep.size()); r.resize(ep.size()); r.set_type(ep.protocol().type()); r.set_protocol(ep.protocol().protocol()); inspect(c, r, x, false);
  asio::generic::stream_protocol::endpoint g(ep.data(), ep.size(), 0); io::endpoint q(g); q.set_type(ep.protocol().type()); q.set_protocol(ep.protocol().protocol()); inspect(c, q, x, false);
}
template<typename T> static void build(Ctx & c, Src & src, const T & proto, const std::string & text, bool valid, expected x)
{
  // from a string_view that is not terminated where it ends
  std::string padded = text + (src.flip() ? "1" : ":"); std::string_view sv(padded.data(), text.size());
  std::optional<io::endpoint> ep; bool threw = throws([&] { if (src.flip()) ep.emplace(proto, sv, x.port); else ep.emplace(io::endpoint(proto, text, x.port)); });
  PBT_CHECK(c, threw == !valid, "an endpoint for '" << text << "' (" << text.size() << ") " << (threw ? "is rejected" : "is made")); if (valid && ep) { c.mark_nontrivial(); inspect(c, *ep, x); copies(src, c, *ep, x); }
}
static void addresses(Src & src, Ctx & c)
{
  Env e; auto port = std::uint16_t(src.chance(1, 4) ? 65535 : src.below(65536)); int want = int(src.below(3)); // v4, v6, unspecified
  std::string t = src.flip() ? v4_string(src) : v6_string(src); if (src.chance(1, 3)) t = mutated(src, t); else c.label("wellformed");
  expected x; x.port = port; in_addr a4; in6_addr a6; bool is4 = parse4(t, a4), is6 = parse6(t, a6); int kind = int(src.below(3));
  if (is6 && src.chance(1, 6) && t.size() < 30) { bool ll = (a6.s6_addr[0] == 0xfe && (a6.s6_addr[1] & 0xc0) == 0x80); c.label("scope"); if (ll && ::if_nametoindex("lo") && src.flip()) { t += "%lo"; x.scope = ::if_nametoindex("lo"); } else { x.scope = src.below(100000); t += "%" + std::to_string(x.scope); } }
  else if (t.find('%') != t.npos) return; // what a scope may look like is the system's business
  c.log(t, " port ", port);
  bool valid = (is4 && want != 1) || (is6 && want != 0); if (is4) { x.family = AF_INET; std::memcpy(x.addr.data(), &a4, 4); } else { x.family = AF_INET6; std::memcpy(x.addr.data(), &a6, 16); }
  x.type = kind == 1 ? SOCK_STREAM : kind == 2 ? SOCK_DGRAM : 0; x.protocol = kind == 1 ? IPPROTO_TCP : kind == 2 ? IPPROTO_UDP : 0; c.label(valid ? is4 ? "v4" : "v6" : "invalid");
  switch (want * 3 + kind)
  {
    case 0: build(c, src, io::ip_v4, t, valid, x); break; case 1: build(c, src, io::tcp_v4, t, valid, x); break; case 2: build(c, src, io::udp_v4, t, valid, x); break;
    case 3: build(c, src, io::ip_v6, t, valid, x); break; case 4: build(c, src, io::tcp_v6, t, valid, x); break; case 5: build(c, src, io::udp_v6, t, valid, x); break;
    case 6: build(c, src, io::ip, t, valid, x); break; case 7: build(c, src, io::tcp, t, valid, x); break; default: build(c, src, io::udp, t, valid, x); break;
  }
  if (c.failed || !(is4 || is6) || !valid) return;
  // from raw addresses and from asio
  if (is4) { std::uint32_t raw; std::memcpy(&raw, &a4, 4); x.type = SOCK_STREAM; x.protocol = IPPROTO_TCP; io::endpoint ep(io::tcp_v4, raw, port); inspect(c, ep, x); }
  else { auto raw = x.addr; auto y = x; y.scope = 0; y.type = SOCK_DGRAM; y.protocol = IPPROTO_UDP; io::endpoint ep(io::udp_v6, raw, port); inspect(c, ep, y); }
  auto addr = is4 ? asio::ip::address(asio::ip::address_v4(ntohl(a4.s_addr))) : asio::ip::address(asio::ip::address_v6(x.addr, x.scope));
  if (src.flip()) { asio::ip::tcp::endpoint ae(addr, port); io::endpoint ep(ae); x.type = SOCK_STREAM; x.protocol = IPPROTO_TCP; inspect(c, ep, x); copies(src, c, ep, x); }
  else { const asio::ip::udp::endpoint ae(addr, port); io::endpoint ep = ae; x.type = SOCK_DGRAM; x.protocol = IPPROTO_UDP; inspect(c, ep, x); copies(src, c, ep, x); }
}
static void paths(Src & src, Ctx & c)
{
  Env e; std::size_t len = src.chance(1, 3) ? 100 + src.below(14) : src.below(60); std::string t; for (std::size_t i = 0; i < len; i++) t += static_cast<char>(src.chance(1, 20) ? 0x80 + src.below(127) : '0' + src.below(75));
  for (auto & ch : t) if (ch == '/' || ch == '\0') ch = '_';
  if (t.empty() || t[0] == '.') t.insert(0, "s"); len = t.size();
  expected x; x.family = AF_UNIX; x.path = t; int kind = int(src.below(4)); x.type = kind == 0 ? SOCK_STREAM : kind == 1 ? SOCK_DGRAM : kind == 2 ? SOCK_SEQPACKET : 0; x.protocol = 0; c.log("path of ", len);
  std::string padded = t + "xyz"; std::string_view sv(padded.data(), len); std::optional<io::endpoint> ep; bool valid = len < sizeof(sockaddr_un::sun_path);
  bool threw = throws([&] { switch (kind) { case 0: ep.emplace(io::local_stream, sv); break; case 1: ep.emplace(io::local_datagram, sv); break; case 2: ep.emplace(io::local_seqpacket, t); break; default: ep.emplace(io::local_protocol, sv); } });
  PBT_CHECK(c, threw == !valid, "a path of " << len << (threw ? " is rejected" : " is accepted")); if (threw || c.failed) return;
  c.mark_nontrivial(); inspect(c, *ep, x); copies(src, c, *ep, x);
  { auto y = x; y.type = SOCK_DGRAM; y.foreign = true; asio::local::datagram_protocol::endpoint ae(t); io::endpoint q(ae); inspect(c, q, y); copies(src, c, q, y); }
  { // an address that uses all the room there is: nothing terminates it
    sockaddr_un full{}; full.sun_family = AF_UNIX; std::memset(full.sun_path, 'p', sizeof full.sun_path); alignas(16) char dirty[sizeof(io::endpoint)]; std::memset(dirty, 'q', sizeof dirty);
    auto q = new (dirty) io::endpoint; std::memcpy(q->data(), &full, sizeof full); q->resize(sizeof full); auto p = get_if<io::local_protocol>(q); PBT_CHECK(c, p && p->path() == std::string(sizeof full.sun_path, 'p'), "the path of a full address has " << (p ? p->path().size() : 0) << " characters");
  }
  // the system takes it (everything happens in the scratch directory, which is the current one)
  if (kind == 3 || c.failed) return;
  ::unlink(t.c_str()); error_code ec; std::optional<io::endpoint> back;
  auto use = [&](auto & s) { back.emplace(*s.local_endpoint()); };
  try
  {
    if (kind == 0) { io::stream_socket s(*ep); use(s); } else if (kind == 1) { io::datagram_socket s(*ep); use(s); } else { io::seq_packet_socket s(*ep); use(s); }
    std::error_code fe; PBT_CHECK(c, std::filesystem::is_socket(t, fe), "bound to another path than the one given"); auto bx = x; bx.type = 0; inspect(c, *back, bx, false); auto bp = get_if<io::local_protocol>(&*back); PBT_CHECK(c, bp && bp->path() == t, "bound to another path");
  }
  catch (boost::system::system_error & s) { PBT_CHECK(c, false, "binding to a valid path: " << s.code().message()); }
  ::unlink(t.c_str());
}
static void protocols(Src & src, Ctx & c)
{
  Env e; auto pick = [&] { return io::protocol_type(static_cast<io::protocol_type::family_t>(src.below(3)), static_cast<io::protocol_type::type_t>(src.below(3)), static_cast<io::protocol_type::protocol_t>(src.below(3))); };
  auto a = pick(), b = pick(); auto key = [](const io::protocol_type & p) { return std::array<long, 3>{p.family(), long(p.type()), long(p.protocol())}; };
  PBT_CHECK(c, (a == b) == (key(a) == key(b))); PBT_CHECK(c, (a < b) == (key(a) < key(b))); c.mark_nontrivial();
  auto same = [&](auto && p, int f, int t, int pr) { io::protocol_type q = p; PBT_CHECK(c, q.family() == f && int(q.type()) == t && int(q.protocol()) == pr, "protocol constant " << q.family() << "/" << q.type() << "/" << q.protocol() << " should be " << f << "/" << t << "/" << pr); };
  same(io::ip, AF_UNSPEC, 0, 0); same(io::ip_v4, AF_INET, 0, 0); same(io::ip_v6, AF_INET6, 0, 0); same(io::tcp, AF_UNSPEC, SOCK_STREAM, IPPROTO_TCP); same(io::tcp_v4, AF_INET, SOCK_STREAM, IPPROTO_TCP); same(io::tcp_v6, AF_INET6, SOCK_STREAM, IPPROTO_TCP);
  same(io::udp, AF_UNSPEC, SOCK_DGRAM, IPPROTO_UDP); same(io::udp_v4, AF_INET, SOCK_DGRAM, IPPROTO_UDP); same(io::udp_v6, AF_INET6, SOCK_DGRAM, IPPROTO_UDP); same(io::local_stream, AF_UNIX, SOCK_STREAM, 0); same(io::local_datagram, AF_UNIX, SOCK_DGRAM, 0); same(io::local_seqpacket, AF_UNIX, SOCK_SEQPACKET, 0);
  same(asio::ip::tcp::v4(), AF_INET, SOCK_STREAM, IPPROTO_TCP); same(asio::ip::udp::v6(), AF_INET6, SOCK_DGRAM, IPPROTO_UDP); same(asio::local::stream_protocol(), AF_UNIX, SOCK_STREAM, 0);
  // sockets open with them
  auto opens = [&](auto s, auto && p) { auto r = s.open(p); PBT_CHECK(c, (r.has_value() && s.is_open()) || r.error() == asio::error::address_family_not_supported, "open says " << r.error().message()); };
  switch (src.below(8))
  {
    case 0: opens(io::stream_socket(), io::tcp_v4); break; case 1: opens(io::stream_socket(), io::tcp_v6); break; case 2: opens(io::datagram_socket(), io::udp_v4); break; case 3: opens(io::datagram_socket(), io::udp_v6); break;
    case 4: opens(io::stream_socket(), io::local_stream); break; case 5: opens(io::datagram_socket(), io::local_datagram); break; case 6: opens(io::seq_packet_socket(), io::local_seqpacket); break; default: break;
  }
  // room for the largest address there is
  io::endpoint big; big.resize(big.capacity()); PBT_CHECK(c, big.size() == big.capacity());
}
static cobalt::promise<void> resolve_script(Src & src, Ctx & c, std::string t, std::uint16_t port, bool valid, bool v4, const unsigned char * want, bool use_lookup, bool cancel, bool & done)
{
  auto flags = io::resolver::flags::numeric_host | io::resolver::flags::numeric_service; auto service = std::to_string(port); error_code ec; io::endpoint_sequence eps{cobalt::this_thread::get_allocator()};
  if (use_lookup) { auto r = co_await cobalt::as_tuple(io::lookup(t, service, co_await cobalt::this_coro::executor, flags)); ec = std::get<0>(r); eps = std::get<1>(r); }
  else { io::resolver res(co_await cobalt::this_coro::executor); auto r = co_await cobalt::as_tuple(res.resolve(t, service, flags)); ec = std::get<0>(r); eps = std::get<1>(r); }
  done = true; c.log(t, ": ", ec.message(), " ", eps.size());
  if (cancel && ec == asio::error::operation_aborted) { c.label("cancelled"); co_return; }
  PBT_CHECK(c, !ec == valid, "resolving " << t << " says " << ec.message()); PBT_CHECK(c, eps.empty() == !!ec, "an error with endpoints or the other way round");
  for (auto & ep : eps)
  {
    auto p = get_if<io::ip>(&ep); PBT_CHECK(c, p && p->port() == port && p->is_ipv4() == v4, "resolved to something else"); if (!p) continue; auto a = p->addr(); PBT_CHECK(c, !std::memcmp(a.data() + (v4 ? 12 : 0), want, v4 ? 4 : 16), "resolved to another address");
    PBT_CHECK(c, ep.size() == (v4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)));
  }
}
static void resolve(Src & src, Ctx & c)
{
  Env e; auto port = std::uint16_t(src.below(65536)); std::string t = src.flip() ? v4_string(src) : v6_string(src); if (src.chance(1, 4)) t = "host-" + t; in_addr a4; in6_addr a6; bool is4 = parse4(t, a4), is6 = parse6(t, a6);
  bool done = false, cancel = src.chance(1, 5); { auto p = resolve_script(src, c, t, port, is4 || is6, is4, is4 ? reinterpret_cast<unsigned char *>(&a4) : reinterpret_cast<unsigned char *>(&a6), src.flip(), cancel, done);
  if (cancel) p.cancel(); for (int i = 0; i < 50 && !done; i++) { e.ctx.restart(); e.ctx.run_one_for(std::chrono::milliseconds(100)); } PBT_CHECK(c, done, "resolving never completed"); if (is4 || is6) c.mark_nontrivial(); }
  e.settle(); if (!c.failed) e.check_memory(c);
}
int main(int argc, char ** argv)
{
  char t[] = "/tmp/c20.XXXXXX"; if (!::mkdtemp(t)) return 2; auto old = std::filesystem::current_path(); static std::string dir = t;
  auto in_dir = [](Src & s, Ctx & c) { auto d = dir + "/" + std::to_string(::getpid()); std::filesystem::create_directories(d); auto o = std::filesystem::current_path(); std::filesystem::current_path(d); paths(s, c); std::filesystem::current_path(o); };
  int rc = pbt::run_main(argc, argv, "C20", {
    {"addresses", "IPv4 and IPv6 texts of all forms (compressed, embedded v4, scopes, any case), a third of them mutated, with every protocol and port, against inet_pton/inet_ntop and asio's endpoints, all accessors and all ways to copy; non-trivial: a valid address", 300000, 10000000, addresses},
    {"paths", "local paths of 1 to 113 bytes for all local protocols, bound in a scratch directory; non-trivial: a valid path", 60000, 1500000, in_dir},
    {"protocols", "pairs of protocols, all constants, opening sockets", 5000, 100000, protocols},
    {"resolve", "numeric hosts and services with resolver and lookup; non-trivial: a valid address", 8000, 200000, resolve, false},
  });
  std::filesystem::remove_all(t); return rc;
}
