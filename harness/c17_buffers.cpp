// C17: buffer sequences against a flat model: the list of the addresses of all bytes they denote.
#include "pbt.hpp"
#include <boost/cobalt/io/buffer.hpp>
#include <boost/asio/buffer_registration.hpp>
#include <boost/asio/io_context.hpp>
#include <array>
#include <deque>
#include <memory>
namespace io = boost::cobalt::io; namespace asio = boost::asio;
using pbt::Src; using pbt::Ctx;

template<typename Buffer> using seq_of = std::conditional_t<std::is_same_v<Buffer, asio::const_buffer>, io::const_buffer_sequence, io::mutable_buffer_sequence>;
using bytes = std::vector<const unsigned char *>;
template<typename B> void add(bytes & m, const B & b) { for (std::size_t i = 0; i < b.size(); i++) m.push_back(static_cast<const unsigned char *>(b.data()) + i); }

template<typename Buffer>
struct arena
{
  Src & src; Ctx & c; std::vector<unsigned char> mem = std::vector<unsigned char>(2000); 
  std::deque<std::vector<Buffer>> vecs; std::deque<std::array<Buffer, 3>> arrs;
  arena(Src & s, Ctx & c) : src(s), c(c) { for (std::size_t i = 0; i < mem.size(); i++) mem[i] = static_cast<unsigned char>(i * 7 + i / 256); }
  Buffer buf() { auto n = src.chance(1, 4) ? 0 : src.below(src.chance(1, 8) ? 300 : 9); auto at = src.below(1000); return Buffer(mem.data() + at, n); }
  struct made { seq_of<Buffer> s; bytes m; std::size_t count; };
  made make()
  {
    using S = seq_of<Buffer>; bytes m;
    switch (src.weighted({1, 4, 4, 2, 1, 2, 2}))
    {
      case 0: return {S{}, m, 1};
      case 1: { auto b = buf(); add(m, b); return {S(b), m, 1}; }
      case 2: { auto & v = vecs.emplace_back(); for (auto n = src.below(src.chance(1, 10) ? 40 : 7); n--;) v.push_back(buf()); for (auto & b : v) add(m, b); return {S(v), m, std::max<std::size_t>(1, v.size())}; }
      case 3: { auto & v = arrs.emplace_back(); for (auto & b : v) { b = buf(); add(m, b); } return {S(v), m, 3}; }
      case 4: { auto & v = vecs.emplace_back(); for (auto n = src.below(5); n--;) v.push_back(buf()); for (auto & b : v) add(m, b); return {S(std::span<const Buffer>(v)), m, std::max<std::size_t>(1, v.size())}; }
      case 5: // a part of a container
      {
        auto & v = vecs.emplace_back(); for (auto n = 1 + src.below(6); n--;) v.push_back(buf());
        auto a = src.below(v.size() + 1), b = a + src.below(v.size() - a + 1);
        std::span<const Buffer> s(v.data() + a, b - a); for (auto & b : s) add(m, b); return {S(s), m, std::max<std::size_t>(1, s.size())};
      }
      default:
        if constexpr (std::is_same_v<Buffer, asio::const_buffer>) { auto b = buf(); asio::mutable_buffer mb(const_cast<void *>(b.data()), b.size()); add(m, mb); return {S(mb), m, 1}; }
        else { auto b = buf(); add(m, b); return {S(b), m, 1}; }
    }
  }
};

template<typename Buffer>
void check_seq(Src & src, Ctx & c, const seq_of<Buffer> & s, const bytes & m, const char * when)
{
  bytes got; std::size_t n = 0;
  for (auto it = s.begin(); it != s.end(); ++it) { add(got, Buffer(*it)); PBT_CHECK(c, it->size() == Buffer(*it).size()); n++; PBT_CHECK(c, n <= s.buffer_count()); if (c.failed) return; }
  PBT_CHECK(c, got == m, when << ": it denotes " << got.size() << " bytes, should be " << m.size() << (got.size() == m.size() ? " (others)" : ""));
  PBT_CHECK(c, n == s.buffer_count(), "buffer_count() is " << s.buffer_count() << " of " << n);
  PBT_CHECK(c, asio::buffer_size(s) == m.size() && io::buffer_size(s) == m.size(), "buffer_size() is " << asio::buffer_size(s) << " of " << m.size());
  PBT_CHECK(c, s.end() - s.begin() == std::ptrdiff_t(n)); PBT_CHECK(c, !s.is_registered());
  switch (src.below(6))
  {
    case 0: // other ways to walk it
    {
      bytes back; for (auto it = s.end(); it != s.begin();) { if (src.flip()) it--; else --it; Buffer b(*it); for (std::size_t i = b.size(); i--;) back.insert(back.begin(), static_cast<const unsigned char *>(b.data()) + i); }
      PBT_CHECK(c, back == m, "backwards it denotes something else"); break;
    }
    case 1: { bytes r; auto it = s.begin(); for (std::size_t i = 0; i < n; i++) add(r, Buffer(it[std::ptrdiff_t(i)])); PBT_CHECK(c, r == m, "indexing"); break; }
    case 2: { bytes r; for (std::size_t i = 0; i < n; i++) { auto it = s.begin() + std::ptrdiff_t(i), jt = s.end() - std::ptrdiff_t(n - i); add(r, Buffer(*jt)); PBT_CHECK(c, it == jt && !(it != jt)); PBT_CHECK(c, it - s.begin() == std::ptrdiff_t(i)); } PBT_CHECK(c, r == m); break; }
    case 3: { auto a = src.below(std::uint32_t(n + 1)), b = src.below(std::uint32_t(n + 1)); auto x = s.begin(), y = s.begin(); x += a; for (auto k = b; k--;) y++; PBT_CHECK(c, (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x == y) == (a == b), "iterators " << a << " and " << b << " are out of order"); break; }
    case 4: { bytes v; visit(s, [&](const auto & b) { for (auto it = asio::buffer_sequence_begin(b); it != asio::buffer_sequence_end(b); ++it) add(v, Buffer(*it)); }); PBT_CHECK(c, v == m, "visit() passes other bytes"); break; }
    case 5: // copied out and in
    {
      std::vector<unsigned char> out(m.size() + 8, 0xEE); auto k = asio::buffer_copy(asio::buffer(out.data(), m.size()), s); PBT_CHECK(c, k == m.size());
      for (std::size_t i = 0; i < m.size(); i++) PBT_CHECK(c, out[i] == *m[i]);
      for (std::size_t i = m.size(); i < out.size(); i++) PBT_CHECK(c, out[i] == 0xEE);
      auto p = src.below(std::uint32_t(m.size() + 3)); std::vector<unsigned char> part(p); PBT_CHECK(c, io::buffer_copy(asio::buffer(part), s) == std::min<std::size_t>(p, m.size()));
      for (std::size_t i = 0; i < p && i < m.size(); i++) PBT_CHECK(c, part[i] == *m[i]);
      break;
    }
  }
}
template<typename Buffer>
static void property(Src & src, Ctx & c)
{
  arena<Buffer> a(src, c); auto x = a.make(), y = a.make(); std::size_t steps = 1 + src.below(16), advanced = 0;
  check_seq<Buffer>(src, c, x.s, x.m, "made"); PBT_CHECK(c, x.s.buffer_count() == x.count, "buffer_count() is " << x.s.buffer_count() << " of " << x.count);
  while (steps-- && !c.failed)
    switch (src.weighted({8, 2, 1, 2, 1}))
    {
      case 0:
      {
        std::size_t n = 0;
        switch (src.weighted({4, 6, 1, 4, 1}))
        {
          case 0: n = src.below(std::uint32_t(x.m.size() + 1)); break;
          case 1: n = src.below(9); break;
          case 2: n = 0; break;
          case 3: { auto k = src.below(std::uint32_t(x.s.buffer_count())); auto it = x.s.begin(); for (std::size_t i = 0; i <= k; i++, ++it) n += it->size(); break; } // exactly to a boundary
          case 4: n = x.m.size() + (src.chance(1, 3) ? src.below(50) : 0); break;
        }
        c.log("advance ", n, " of ", x.m.size());
        auto & r = x.s += n; PBT_CHECK(c, &r == &x.s); if (n && x.s.buffer_count() > 1) advanced++;
        if (n >= x.m.size()) c.label(n > x.m.size() ? "beyond" : "all");
        x.m.erase(x.m.begin(), x.m.begin() + std::ptrdiff_t(std::min(n, x.m.size())));
        check_seq<Buffer>(src, c, x.s, x.m, "advanced");
        break;
      }
      case 1: { seq_of<Buffer> z(x.s); check_seq<Buffer>(src, c, z, x.m, "copied"); z += src.below(20); check_seq<Buffer>(src, c, x.s, x.m, "after advancing a copy"); break; }
      case 2: { std::swap(x, y); check_seq<Buffer>(src, c, x.s, x.m, "swapped"); break; }
      case 3: { y.s = x.s; y.m = x.m; check_seq<Buffer>(src, c, y.s, y.m, "assigned"); auto n = src.below(8); y.s += n; y.m.erase(y.m.begin(), y.m.begin() + std::ptrdiff_t(std::min<std::size_t>(n, y.m.size()))); check_seq<Buffer>(src, c, y.s, y.m, "assigned & advanced"); break; }
      case 4: y = a.make(); break;
    }
  check_seq<Buffer>(src, c, y.s, y.m, "other");
  if (advanced > 1) c.mark_nontrivial();
}
// registered buffers (without io_uring a registration just refers to the memory)
static void registered(Src & src, Ctx & c)
{
  asio::io_context ctx; std::vector<unsigned char> mem(64); std::vector<asio::mutable_buffer> bs; for (auto n = 1 + src.below(4); n--;) { auto at = src.below(40); bs.emplace_back(mem.data() + at, src.below(20)); }
  auto reg = asio::register_buffers(ctx, bs); bool nt = false;
  for (std::size_t i = 0; i < bs.size(); i++)
  {
    auto off = src.below(24), len = src.below(24); asio::mutable_registered_buffer b = reg[i]; auto sub = asio::buffer(b + off, len);
    auto raw = asio::buffer(bs[i] + off, len); bytes m; add(m, raw); nt |= m.size() > 1;
    check_seq<asio::mutable_buffer>(src, c, io::mutable_buffer_sequence(sub), m, "registered");
    check_seq<asio::const_buffer>(src, c, io::const_buffer_sequence(sub), m, "registered");
    check_seq<asio::const_buffer>(src, c, io::const_buffer_sequence(asio::const_registered_buffer(sub)), m, "registered");
    auto n = src.below(24); io::const_buffer_sequence s(sub); s += n; m.erase(m.begin(), m.begin() + std::ptrdiff_t(std::min<std::size_t>(n, m.size()))); check_seq<asio::const_buffer>(src, c, s, m, "registered & advanced");
  }
  if (nt) c.mark_nontrivial();
}
int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C17", {
    {"mutable", "sequences of 0-40 buffers (single, vector, array, span, part of a container) of 0-300 bytes, copied, assigned, swapped and advanced 1-16 times; non-trivial: two or more advances with several buffers left", 400000, 10000000, property<asio::mutable_buffer>},
    {"const", "the same with const buffers", 400000, 10000000, property<asio::const_buffer>},
    {"registered", "sequences from parts of 1-4 registered buffers, advanced; non-trivial: of two or more bytes", 30000, 1000000, registered, false},
  });
}
