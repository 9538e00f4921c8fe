// C19: stream and random access files against a byte array model.
#include "gate.hpp"
#include "io_request.hpp"
#include <boost/cobalt/io/read.hpp>
#include <boost/cobalt/io/write.hpp>
#include <boost/cobalt/io/stream_file.hpp>
#include <boost/cobalt/io/random_access_file.hpp>
#include <boost/cobalt/gather.hpp>
#include <filesystem>
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
using namespace env;
namespace io = cobalt::io;
using pbt::Src; using pbt::Ctx;
static std::string dir;
static int open_fds() { int n = 0; auto d = ::opendir("/proc/self/fd"); while (::readdir(d)) n++; ::closedir(d); return n; }

struct handle
{
  std::optional<io::stream_file> s; std::optional<io::random_access_file> r; bool open = false, rd = false, wr = false, append = false; std::uint64_t pos = 0;
  io::file & f() { return s ? static_cast<io::file &>(*s) : *r; }
};
// The bytes of a file that may have holes.
struct sparse
{
  static constexpr std::uint64_t page = 4096; std::uint64_t n = 0; std::map<std::uint64_t, data_t> pages;
  std::uint64_t size() const { return n; }
  void clear() { n = 0; pages.clear(); }
  void resize(std::uint64_t k)
  {
    if (k < n) { pages.erase(pages.lower_bound((k + page - 1) / page), pages.end()); if (auto it = pages.find(k / page); it != pages.end()) std::fill(it->second.begin() + std::ptrdiff_t(k % page), it->second.end(), typename data_t::value_type{}); }
    n = k;
  }
  data_t get(std::uint64_t at, std::size_t k) const
  {
    data_t r(k); for (std::size_t i = 0; i < k;) { auto o = (at + i) % page; auto m = std::min<std::uint64_t>(page - o, k - i); if (auto it = pages.find((at + i) / page); it != pages.end()) std::copy_n(it->second.begin() + std::ptrdiff_t(o), m, r.begin() + std::ptrdiff_t(i)); i += m; } return r;
  }
  void put(std::uint64_t at, const data_t & d, std::size_t k)
  {
    n = std::max(n, at + k); for (std::size_t i = 0; i < k;) { auto o = (at + i) % page; auto m = std::min<std::uint64_t>(page - o, k - i); auto & p = pages[(at + i) / page]; p.resize(page); std::copy_n(d.begin() + std::ptrdiff_t(i), m, p.begin() + std::ptrdiff_t(o)); i += m; }
  }
};
struct world
{
  Src & src; Ctx & c; Env & e; std::string path; sparse data; std::uint64_t far_ = 0; bool exists = false; std::array<handle, 3> hs; int effective = 0; bool done = false;
  world(Src & s, Ctx & c, Env & e, std::string p) : src(s), c(c), e(e), path(std::move(p)) {}

  void do_open(handle & h)
  {
    int mode = int(src.weighted({1, 1, 4})); auto fl = mode == 0 ? io::file::read_only : mode == 1 ? io::file::write_only : io::file::read_write;
    bool create = src.chance(3, 4), excl = create && src.chance(1, 6), trunc = mode && src.chance(1, 8), append = h.s && src.chance(1, 6);
    if (create) fl = fl | io::file::create; if (excl) fl = fl | io::file::exclusive; if (trunc) fl = fl | io::file::truncate; if (append) fl = fl | io::file::append;
    bool ok = !h.open && (exists ? !excl : create);
    boost::system::result<void> r; if (src.flip()) r = h.f().open(path, fl); else r = h.f().open(path.c_str(), fl);
    c.log("open ", int(fl), ok ? "" : " (fails)");
    PBT_CHECK(c, r.has_value() == ok, "open says " << r.error().message() << (h.open ? " (already open)" : exists ? " (exists)" : ""));
    PBT_CHECK(c, h.f().is_open() == (h.open || ok));
    if (!ok) return;
    exists = true; if (trunc) data.clear(); h.open = true; h.rd = mode != 1; h.wr = mode != 0; h.append = append; h.pos = 0;
  }
  // what reading n bytes at p gives
  std::size_t readable(std::uint64_t p, std::size_t n) const { return p >= data.size() ? 0 : std::size_t(std::min<std::uint64_t>(n, data.size() - p)); }
  void stored(std::uint64_t p, const data_t & d, std::size_t n) { if (n) data.put(p, d, n); }
  void check_read(handle & h, request & q, request & before, std::uint64_t at, bool all, error_code ec, std::size_t n)
  {
    auto want = readable(at, q.size);
    if (!h.open || !h.rd) { if (q.size) PBT_CHECK(c, ec && !n, "reading from a file that is " << (h.open ? "write only" : "closed") << " gives " << n << " bytes"); }
    else if (all || q.parts.size() <= 64)
    {
      PBT_CHECK(c, n == want, "read " << n << " of " << want << " bytes at " << at << " of " << data.size() << ": " << ec.message());
      if (all ? want < q.size : want == 0 && q.size) PBT_CHECK(c, ec == asio::error::eof, "reading past the end says " << ec.message()); else PBT_CHECK(c, !ec, ec.message());
    }
    else { PBT_CHECK(c, n <= want && (n || !want), "read " << n << " of " << want); PBT_CHECK(c, !ec == (n || !q.size)); }
    if (n && n <= want) { auto d = data.get(at, n); before.put(d.data(), n); effective++; }
    PBT_CHECK(c, q.mem == before.mem, "other bytes than the file's were read");
  }
  std::size_t check_write(handle & h, request & q, std::uint64_t at, bool all, error_code ec, std::size_t n)
  {
    if (!h.open || !h.wr) { if (q.size) PBT_CHECK(c, ec && !n, "writing to a file that is " << (h.open ? "read only" : "closed") << " says " << ec.message()); return 0; }
    PBT_CHECK(c, !ec, ec.message()); if (all || q.parts.size() <= 64) PBT_CHECK(c, n == q.size, "wrote " << n << " of " << q.size); else PBT_CHECK(c, n <= q.size && (n || !q.size));
    if (n <= q.size) { stored(at, q.flat(), n); if (n) effective++; }
    return n;
  }
  std::uint64_t offset()
  {
    std::uint64_t far = far_ && src.flip() ? far_ : 0; auto near = std::uint32_t(std::min<std::uint64_t>(data.size(), 20000) + 1);
    switch (src.weighted({6, 3, 2})) { case 0: return far + src.below(near); case 1: return far + src.below(3000); default: return far + src.below(4); }
  }
  cobalt::promise<void> script()
  {
    for (int steps = 4 + int(src.below(40)); steps-- && !c.failed;)
    {
      auto & h = hs[src.below(3)]; bool all = src.flip(); if (!h.open && src.chance(2, 3)) { do_open(h); if (h.open) continue; }
      switch (src.weighted({h.open ? 1u : 8u, 9, 9, 3, 2, 1, 1, 2, 1, 2}))
      {
        case 0: do_open(h); break;
        case 1: // read
        {
          request q(src, 100); auto before = q; auto bs = q.buffers<asio::mutable_buffer>(); error_code ec; std::size_t n = 0;
          if (h.s)
          {
            if (all) { auto r = co_await cobalt::as_tuple(io::read(*h.s, bs)); std::tie(ec, n) = r; }
            else     { auto r = co_await cobalt::as_tuple(h.s->read_some(bs)); std::tie(ec, n) = r; }
            c.log("read ", n, " of ", q.size, " at ", h.pos, ": ", ec.message()); check_read(h, q, before, h.pos, all, ec, n); h.pos += n;
          }
          else
          {
            auto off = offset();
            if (src.chance(1, 20)) // beyond what a file may have
            {
              off |= 1ull << 63; auto r = co_await cobalt::as_tuple(h.r->read_some_at(off, bs)); std::tie(ec, n) = r;
              c.label("bad_offset"); if (q.size) PBT_CHECK(c, ec && !n, "read at an impossible offset"); PBT_CHECK(c, q.mem == before.mem); break;
            }
            if (all) { auto r = co_await cobalt::as_tuple(io::read_at(*h.r, off, bs)); std::tie(ec, n) = r; }
            else     { auto r = co_await cobalt::as_tuple(h.r->read_some_at(off, bs)); std::tie(ec, n) = r; }
            c.log("read ", n, " of ", q.size, " at ", off, ": ", ec.message()); check_read(h, q, before, off, all, ec, n);
          }
          break;
        }
        case 2: // write
        {
          request q(src, static_cast<unsigned char>(src.below(256))); auto bs = q.buffers<asio::const_buffer>(); error_code ec; std::size_t n = 0;
          if (h.s)
          {
            if (all) { auto r = co_await cobalt::as_tuple(io::write(*h.s, bs)); std::tie(ec, n) = r; }
            else     { auto r = co_await cobalt::as_tuple(h.s->write_some(bs)); std::tie(ec, n) = r; }
            auto at = h.append ? data.size() : h.pos; c.log("write ", n, " of ", q.size, " at ", at, ": ", ec.message());
            if (auto k = check_write(h, q, at, all, ec, n)) h.pos = at + k;
          }
          else
          {
            auto off = offset();
            if (all) { auto r = co_await cobalt::as_tuple(io::write_at(*h.r, off, bs)); std::tie(ec, n) = r; }
            else     { auto r = co_await cobalt::as_tuple(h.r->write_some_at(off, bs)); std::tie(ec, n) = r; }
            c.log("write ", n, " of ", q.size, " at ", off, ": ", ec.message()); check_write(h, q, off, all, ec, n);
          }
          break;
        }
        case 3: // seek
        {
          if (!h.s) break;
          auto whence = src.below(3); std::int64_t off = src.range(-300, 600); if (far_ && src.flip()) off += std::int64_t(far_) * (src.flip() ? 1 : -1); std::int64_t base = whence == 0 ? 0 : whence == 1 ? std::int64_t(h.pos) : std::int64_t(data.size());
          auto r = h.s->seek(off, whence == 0 ? io::file::seek_set : whence == 1 ? io::file::seek_cur : io::file::seek_end); c.log("seek ", off, " from ", base);
          if (!h.open || base + off < 0) { PBT_CHECK(c, r.has_error(), "seeking before the start works"); break; }
          PBT_CHECK(c, r.has_value() && *r == std::uint64_t(base + off), "seek says it is at " << (r ? *r : 0) << ", should be at " << base + off); h.pos = std::uint64_t(base + off);
          break;
        }
        case 4: // size & resize
        {
          auto z = h.f().size(); PBT_CHECK(c, z.has_value() == h.open); if (z) PBT_CHECK(c, *z == data.size(), "size is " << *z << " of " << data.size());
          if (src.flip()) break;
          std::uint64_t n = src.below(2000); if (far_ && src.flip()) n += far_; auto r = h.f().resize(n); c.log("resize ", n); PBT_CHECK(c, r.has_value() == (h.open && h.wr)); if (r) data.resize(n);
          break;
        }
        case 5: { auto r = src.flip() ? h.f().sync_all() : h.f().sync_data(); PBT_CHECK(c, r.has_value() == h.open); break; }
        case 6: { c.log("close"); auto r = h.f().close(); PBT_CHECK(c, r.has_value(), r.error().message()); h.open = false; PBT_CHECK(c, !h.f().is_open()); break; }
        case 7: // moved, released & assigned
        {
          auto fd = h.f().native_handle(); PBT_CHECK(c, h.f().is_open() == h.open);
          switch (src.below(3))
          {
            case 0:
              if (h.s) { std::optional<io::stream_file> t(std::move(*h.s)); PBT_CHECK(c, !h.s->is_open()); h.s.reset(); h.s.emplace(std::move(*t)); }
              else { std::optional<io::random_access_file> t(std::move(*h.r)); PBT_CHECK(c, !h.r->is_open()); h.r.reset(); h.r.emplace(std::move(*t)); }
              PBT_CHECK(c, h.f().is_open() == h.open && (!h.open || h.f().native_handle() == fd)); break;
            case 1:
            {
              if (!h.open) break;
              auto r = h.f().release(); PBT_CHECK(c, r.has_value() && *r == fd && !h.f().is_open());
              auto a = h.f().assign(*r); PBT_CHECK(c, a.has_value() && h.f().is_open() && h.f().native_handle() == fd); break;
            }
            case 2:
            {
              if (!h.open) break;
              auto r = h.f().release(); PBT_CHECK(c, r.has_value() && *r == fd);
              auto ex = e.ctx.get_executor(); if (h.s) { h.s.reset(); h.s.emplace(*r, ex); } else { h.r.reset(); h.r.emplace(*r, ex); }
              auto a = h.f().assign(0); PBT_CHECK(c, a.has_error() && h.f().native_handle() == fd, "assigned to an open file"); break;
            }
          }
          c.label("moved"); break;
        }
        case 8: // opened by the constructor
        {
          if (h.open) break;
          bool s = h.s.has_value(), threw = false; h.s.reset(); h.r.reset(); auto fl = src.flip() ? io::file::read_only : io::file::read_write; auto ex = e.ctx.get_executor();
          try { if (s) h.s.emplace(path, fl, ex); else h.r.emplace(path.c_str(), fl, ex); } catch (boost::system::system_error &) { threw = true; if (s) h.s.emplace(ex); else h.r.emplace(ex); }
          PBT_CHECK(c, threw != exists && h.f().is_open() == exists); if (exists) { h.open = h.rd = true; h.wr = fl == io::file::read_write; h.append = false; h.pos = 0; }
          break;
        }
        case 9: // several at once at different offsets
        {
          if (!h.r || !h.open || !h.rd || !h.wr || data.size() < 40) break;
          request q1(src, 10), q2(src, 50); std::uint64_t o1 = src.below(10), o2 = data.size() - src.below(10); bool w2 = src.flip();
          if (q1.parts.size() > 60 || q2.parts.size() > 60 || o1 + q1.size >= o2) break;
          auto b1 = q1.buffers<asio::mutable_buffer>(); auto c2 = q2.buffers<asio::const_buffer>(); auto m2 = q2.buffers<asio::mutable_buffer>(); auto k1 = q1, k2 = q2; bool rev = src.flip(); c.label("concurrent");
          auto op1 = h.r->read_some_at(o1, b1); auto wop = h.r->write_some_at(o2, c2); auto rop = h.r->read_some_at(o2, m2);
          std::size_t n1 = 0, n2 = 0;
          auto get = [&](auto & r) { return r.has_error() ? std::size_t(0) : std::size_t(*r); };
          if (w2) { if (rev) { auto r = co_await cobalt::gather(wop, op1); n2 = get(std::get<0>(r)); n1 = get(std::get<1>(r)); } else { auto r = co_await cobalt::gather(op1, wop); n1 = get(std::get<0>(r)); n2 = get(std::get<1>(r)); } }
          else    { if (rev) { auto r = co_await cobalt::gather(rop, op1); n2 = get(std::get<0>(r)); n1 = get(std::get<1>(r)); } else { auto r = co_await cobalt::gather(op1, rop); n1 = get(std::get<0>(r)); n2 = get(std::get<1>(r)); } }
          check_read(h, q1, k1, o1, false, q1.size && !n1 ? error_code(asio::error::eof) : error_code(), n1);
          if (w2) check_write(h, q2, o2, false, {}, n2); else check_read(h, q2, k2, o2, false, q2.size && !n2 ? error_code(asio::error::eof) : error_code(), n2);
          break;
        }
      }
      if (exists && src.chance(1, 8)) compare("after a step");
    }
    if (exists) compare("at the end");
    done = true;
  }
  void compare(const char * when)
  {
    int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC); struct stat st; PBT_CHECK(c, fd >= 0 && ::fstat(fd, &st) == 0, "the file is gone"); if (fd < 0) return;
    PBT_CHECK(c, std::uint64_t(st.st_size) == data.size(), when << " the file has " << st.st_size << " bytes, should have " << data.size());
    data_t d(sparse::page); auto same = [&](std::uint64_t p) { auto k = ::pread(fd, d.data(), d.size(), off_t(p * sparse::page)); d.resize(std::size_t(std::max<ssize_t>(k, 0))); bool r = d == data.get(p * sparse::page, d.size()); d.resize(sparse::page); return r; };
    for (auto & [p, x] : data.pages) PBT_CHECK(c, same(p), when << " the file contains other bytes at " << p * sparse::page);
    // what was never written has to be zero
    int left = 64; for (off_t at = 0; left > 0 && (at = ::lseek(fd, at, SEEK_DATA)) >= 0;)
    {
      auto hole = ::lseek(fd, at, SEEK_HOLE); if (hole < 0) hole = st.st_size;
      for (; at < hole && left-- > 0; at = off_t((std::uint64_t(at) / sparse::page + 1) * sparse::page)) if (!data.pages.count(std::uint64_t(at) / sparse::page)) PBT_CHECK(c, same(std::uint64_t(at) / sparse::page), when << " the file contains bytes that nobody wrote at " << at);
    }
    ::close(fd);
  }
};
static void property(Src & src, Ctx & c)
{
  auto path = dir + "/" + std::to_string(::getpid()); ::unlink(path.c_str()); auto fds = open_fds();
  {
    Env e;
    {
      world w(src, c, e, path); auto ex = e.ctx.get_executor(); w.hs[0].s.emplace(ex); w.hs[1].r.emplace(ex); if (src.flip()) w.hs[2].s.emplace(ex); else w.hs[2].r.emplace(ex);
      switch (src.weighted({5, 1, 1, 1})) { case 1: w.far_ = (1ull << 31) - 100; break; case 2: w.far_ = (1ull << 32) - 100; break; case 3: w.far_ = 5ull << 30; break; } if (w.far_) c.label("large");
      auto fds1 = open_fds();
      auto p = w.script(); for (int i = 0; i < 100 && !w.done; i++) e.settle();
      PBT_CHECK(c, w.done, "an operation on a file never completed");
      if (w.effective > 3) c.mark_nontrivial();
      int used = 0; for (auto & h : w.hs) used += h.f().is_open(); PBT_CHECK(c, open_fds() == fds1 + used, "descriptors were leaked");
      if (!w.done) { +std::move(p); e.ctx.stop(); }
    }
    e.settle();
    if (!c.failed) e.check_memory(c);
  }
  PBT_CHECK(c, open_fds() == fds, "descriptors were leaked");
  ::unlink(path.c_str());
}
int main(int argc, char ** argv)
{
  char t[] = "/tmp/c19-files.XXXXXX"; if (!::mkdtemp(t)) return 2; dir = t;
  int rc = pbt::run_main(argc, argv, "C19", {
    {"files", "sequences of 4-43 operations (open with all flags, read, write, read_at, write_at, some or all, of 0-94 scattered buffers, seek, size, resize, sync, close, move, release, assign, concurrent offsets) on three handles of one file of up to 10 GiB (sparse) against a byte array; non-trivial: four or more effective transfers", 60000, 1500000, property, false},
  });
  std::filesystem::remove_all(t); return rc;
}
