// Shared scaffolding: a single-threaded io_context that the harness steps by hand, so that the schedule is data.
#pragma once
#include "pbt.hpp"
#include <boost/cobalt/config.hpp>
#include <boost/cobalt/this_thread.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/error.hpp>
#include <boost/system/system_error.hpp>
#include <optional>
#include <exception>
#include <memory>

namespace env
{
namespace cobalt = boost::cobalt;
namespace asio = boost::asio;
using boost::system::error_code;

// Memory resource that checks every deallocation against the allocation it belongs to.
struct checked_resource final : cobalt::pmr::memory_resource
{
  struct block { std::size_t size, align; };
  std::map<void *, block> live;
  std::size_t allocs = 0, deallocs = 0, bad = 0;
  std::string what;
  long long fail_at = -1; // the n-th allocation from now throws bad_alloc (-1: never)
  void * do_allocate(std::size_t n, std::size_t a) override
  {
    if (fail_at >= 0 && fail_at-- == 0) throw std::bad_alloc();
    auto p = ::operator new(n ? n : 1, std::align_val_t(a < 16 ? 16 : a));
    live[p] = {n, a}; allocs++;
    return p;
  }
  void do_deallocate(void * p, std::size_t n, std::size_t a) override
  {
    deallocs++;
    auto it = live.find(p);
    if (it == live.end()) { bad++; what = "deallocate of a block this resource never handed out"; return; }
    if (it->second.size != n || it->second.align != a)
    { bad++; what = "deallocate with size " + std::to_string(n) + "/" + std::to_string(a) + " of a block allocated with "
             + std::to_string(it->second.size) + "/" + std::to_string(it->second.align); }
    ::operator delete(p, std::align_val_t(it->second.align < 16 ? 16 : it->second.align));
    live.erase(it);
  }
  bool do_is_equal(const cobalt::pmr::memory_resource & o) const noexcept override { return this == &o; }
  ~checked_resource()
  {
    for (auto & l : live) ::operator delete(l.first, std::align_val_t(l.second.align < 16 ? 16 : l.second.align));
  }
};

// One per case.
struct Env
{
  asio::io_context ctx{1};
  checked_resource res;
  cobalt::pmr::memory_resource * prev;
  Env() : prev(cobalt::this_thread::set_default_resource(&res))
  {
    cobalt::this_thread::set_executor(ctx.get_executor());
  }
  ~Env() { cobalt::this_thread::set_default_resource(prev); }
  std::size_t settle(std::size_t limit = 100000)
  {
    std::size_t n = 0;
    ctx.restart();
    while (n < limit && ctx.poll_one()) { n++; ctx.restart(); }
    return n;
  }
  std::size_t step(std::size_t k)
  {
    std::size_t n = 0;
    ctx.restart();
    while (n < k && ctx.poll_one()) n++;
    return n;
  }
  void check_memory(pbt::Ctx & c)
  {
    PBT_CHECK(c, res.bad == 0, res.what);
    PBT_CHECK(c, res.live.empty(), res.live.size() << " block(s) of the thread's resource never freed");
  }
};

// A logical clock for histories.
struct Clock { int now = 0; int tick() { return ++now; } };

inline std::string ep_name(std::exception_ptr e)
{
  if (!e) return "none";
  try { std::rethrow_exception(e); }
  catch (boost::system::system_error & s) { return "system:" + s.code().message(); }
  catch (std::exception & s) { return std::string("exception:") + s.what(); }
  catch (int i) { return "int:" + std::to_string(i); }
  catch (...) { return "unknown"; }
}
inline error_code ep_code(std::exception_ptr e)
{
  if (!e) return {};
  try { std::rethrow_exception(e); }
  catch (boost::system::system_error & s) { return s.code(); }
  catch (...) { return asio::error::fault; }
}

struct test_error : std::exception
{
  int id;
  explicit test_error(int id) : id(id) {}
  const char * what() const noexcept override { return "test_error"; }
};

// id of the test_error in e, -1 if null, -2 for an operation_aborted system_error, -3 otherwise
inline int ep_id(std::exception_ptr e)
{
  if (!e) return -1;
  try { std::rethrow_exception(e); }
  catch (test_error & t) { return t.id; }
  catch (boost::system::system_error & s) { return s.code() == asio::error::operation_aborted ? -2 : -3; }
  catch (...) { return -3; }
}

// counts live instances of anything
struct Live { static inline long long n = 0; Live() { n++; } Live(const Live &) { n++; } Live(Live &&) noexcept { n++; }
              Live & operator=(const Live &) = default; Live & operator=(Live &&) = default; ~Live() { n--; } };
}
