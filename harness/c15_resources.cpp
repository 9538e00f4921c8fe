// C15: the library's own memory resources: sbo_resource and monotonic_resource (also as built without pmr).
#include "pbt.hpp"
#include <boost/cobalt/config.hpp>
#include <boost/assert.hpp>
#include <algorithm>
#include <cstring>
#include <memory>
#include <optional>
#include <limits>
#include <boost/cobalt/detail/sbo_resource.hpp>
#include <boost/cobalt/detail/monotonic_resource.hpp>
using pbt::Src; using pbt::Ctx;
namespace detail = boost::cobalt::detail;

struct block { unsigned char * p; std::size_t n, align; unsigned char tag; };
struct blocks
{
  Ctx & c; std::vector<block> live; unsigned char next = 1; int given = 0;
  explicit blocks(Ctx & c) : c(c) { live.reserve(64); }
  void add(void * p_, std::size_t n, std::size_t align)
  {
    auto p = static_cast<unsigned char *>(p_);
    PBT_CHECK(c, p != nullptr, "allocate(" << n << ", " << align << ") returned null");
    PBT_CHECK(c, reinterpret_cast<std::uintptr_t>(p) % align == 0, "allocate(" << n << ", " << align << ") returned memory that isn't aligned");
    for (auto & b : live) PBT_CHECK(c, p + n <= b.p || b.p + b.n <= p || !n || !b.n, "allocate(" << n << ") returned memory in use");
    if (c.failed) return;
    live.push_back({p, n, align, next});
    std::memset(p, next++, n); given++; // the sanitizer sees memory that isn't there
  }
  void intact(const block & b) { for (std::size_t i = 0; i < b.n; i++) if (b.p[i] != b.tag) { c.fail("a block of memory was overwritten"); return; } }
  void intact() { for (auto & b : live) intact(b); }
};
static std::size_t any_size(Src & s) { switch (s.weighted({4, 3, 2, 1})) { case 0: return 1 + s.below(40); case 1: return 8 * (1 + s.below(24)); case 2: return 1 + s.below(700); default: return 0; } }
static std::size_t any_align(Src & s) { return std::size_t(1) << s.weighted({3, 1, 1, 3, 6, 2, 1}); }

#if !defined(BOOST_COBALT_NO_PMR)
struct upstream final : boost::cobalt::pmr::memory_resource
{
  std::map<void *, std::pair<std::size_t, std::size_t>> live; std::string bad;
  void * do_allocate(std::size_t n, std::size_t a) override { auto p = ::operator new(n ? n : 1, std::align_val_t(a)); live[p] = {n, a}; return p; }
  void do_deallocate(void * p, std::size_t n, std::size_t a) override
  {
    auto i = live.find(p);
    if (i == live.end() || i->second != std::pair(n, a)) { bad = "upstream was given a block back that it didn't hand out like that"; return; }
    ::operator delete(p, std::align_val_t(a)); live.erase(i);
  }
  bool do_is_equal(const boost::cobalt::pmr::memory_resource & o) const noexcept override { return this == &o; }
};
#endif

static void sbo(Src & src, Ctx & c)
{
  std::size_t size = src.weighted({1, 6}) ? src.below(600) : 0, shift = src.below(17);
  std::unique_ptr<unsigned char[]> buffer(new unsigned char[size + shift]); // so anything beyond is detected
  blocks b(c); int out = 0, in = 0, frees = 0;
  {
#if defined(BOOST_COBALT_NO_PMR)
    detail::sbo_resource r(buffer.get() + shift, size);
    auto alloc = [&](std::size_t n, std::size_t a) { return r.do_allocate(n, a); };
    auto free = [&](const block & k) { r.do_deallocate(k.p, k.n, k.align); };
#else
    upstream up; detail::sbo_resource r(buffer.get() + shift, size, &up);
    auto alloc = [&](std::size_t n, std::size_t a) { return r.allocate(n, a); };
    auto free = [&](const block & k) { r.deallocate(k.p, k.n, k.align); PBT_CHECK(c, up.bad.empty(), up.bad); };
#endif
    auto release = [&](std::size_t i) { auto k = b.live[i]; b.intact(k); b.live.erase(b.live.begin() + i); c.log("free ", k.n, " ", k.align); free(k); frees++; };
    for (int steps = 1 + int(src.below(30)); steps-- && !c.failed;)
      if (b.live.empty() || src.weighted({3, 2}) == 0)
      {
        auto n = any_size(src), a = any_align(src);
        c.log("allocate ", n, " ", a);
        auto p = static_cast<unsigned char *>(alloc(n, a)); b.add(p, n, a);
        bool own = p >= buffer.get() && p < buffer.get() + size + shift; (own ? in : out)++;
        if (own) PBT_CHECK(c, p + n <= buffer.get() + size + shift, "memory beyond the buffer");
      }
      else release(src.flip() ? b.live.size() - 1 : src.below(b.live.size()));
    b.intact();
    while (!b.live.empty() && !c.failed) release(src.below(b.live.size()));
    if (!c.failed && size >= 64) // with everything returned the whole buffer is available again
    {
      auto n = size - 48; auto p = static_cast<unsigned char *>(alloc(n, 1));
      PBT_CHECK(c, p >= buffer.get() && p < buffer.get() + size + shift, "a resource with everything returned doesn't use its buffer");
      free({p, n, 1, 0});
    }
#if !defined(BOOST_COBALT_NO_PMR)
    PBT_CHECK(c, up.live.empty() && up.bad.empty(), "upstream memory isn't returned " << up.bad);
    for (auto & l : up.live) ::operator delete(l.first, std::align_val_t(l.second.second));
#endif
  }
  if (in) c.label("buffer"); if (out) c.label("upstream");
  if (in && out && frees > 2) c.mark_nontrivial();
}

static void monotonic(Src & src, Ctx & c)
{
  std::size_t size = src.below(600), shift = src.below(17); bool own = src.flip();
  std::unique_ptr<unsigned char[]> buffer(new unsigned char[size + shift]);
  blocks b(c); int in = 0, out = 0;
  {
    std::optional<detail::monotonic_resource> r;
    if (own) r.emplace(buffer.get() + shift, size); else r.emplace(1 + src.below(2000));
    for (int steps = 1 + int(src.below(30)); steps-- && !c.failed;)
      if (src.weighted({12, 1}) == 0)
      {
        auto n = any_size(src), a = any_align(src);
        c.log("allocate ", n, " ", a);
        auto p = static_cast<unsigned char *>(r->allocate(n, std::align_val_t(a))); b.add(p, n, a);
        (own && p >= buffer.get() && p < buffer.get() + size + shift ? in : out)++;
      }
      else { b.intact(); b.live.clear(); c.log("release"); r->release(); c.label("released"); }
    b.intact();
  }
  if (in) c.label("buffer"); if (out) c.label("chunk");
  if (b.given > 2) c.mark_nontrivial();
}
int main(int argc, char ** argv)
{
  return pbt::run_main(argc, argv, "C15", {
    {"sbo", "sequences of allocations and deallocations in any order with all sizes and alignments on an sbo_resource over a buffer of any size and alignment; non-trivial: served from the buffer and from upstream with 3 or more deallocations", 300000, 10000000, sbo},
    {"monotonic", "sequences of allocations with all sizes and alignments and releases on a monotonic_resource, with and without buffer; non-trivial: 3 or more blocks", 300000, 10000000, monotonic},
  });
}
