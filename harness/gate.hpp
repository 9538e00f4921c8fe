// Leaf operations whose completion the harness controls, and bookkeeping about who awaits them.
#pragma once
#include "env.hpp"
#include <boost/cobalt/op.hpp>
#include <boost/cobalt/promise.hpp>
#include <boost/cobalt/task.hpp>
#include <boost/cobalt/generator.hpp>
#include <boost/cobalt/detached.hpp>
#include <boost/cobalt/this_coro.hpp>
#include <boost/cobalt/result.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/dispatch.hpp>
#include <boost/asio/bind_executor.hpp>
#include <boost/asio/cancellation_type.hpp>
#include <deque>
#include <variant>
#include <functional>

namespace env
{

// How a gate reacts to a cancellation request
enum class on_cancel { complete_inline, complete_posted, ignore };

struct Gate final : cobalt::op<error_code, int>
{
  Env & e;
  int id = 0;
  on_cancel reaction = on_cancel::complete_inline;
  bool immediate_ready = false;                    // completes in ready()
  bool immediate_init = false;                     // completes through the immediate executor during initiation
  bool slotless = false;                           // doesn't support cancellation at all, so leaves the slot alone
  error_code imm_ec; int imm_val = 0;

  int ready_calls = 0, initiations = 0, completions = 0;
  std::vector<asio::cancellation_type> cancels;    // requests that reached this operation while it was pending
  bool stray_cancel = false;                       // a request after completion
  std::optional<cobalt::completion_handler<error_code, int>> h;
  asio::cancellation_slot slot;
  std::function<void()> on_initiate;
  std::function<void(error_code, int)> on_complete; // right before the completion is delivered

  explicit Gate(Env & e, int id) : e(e), id(id) {}
  Gate(const Gate &) = delete;

  bool waiting() const { return h.has_value(); }

  void ready(cobalt::handler<error_code, int> hd) override
  {
    ready_calls++;
    if (immediate_ready) { completions++; if (on_complete) on_complete(imm_ec, imm_val); hd(imm_ec, imm_val); }
  }
  void initiate(cobalt::completion_handler<error_code, int> hd) override
  {
    initiations++;
    if (on_initiate) on_initiate();
    if (immediate_init)
    {
      completions++;
      auto ex = asio::get_associated_immediate_executor(hd, hd.get_executor());
      asio::dispatch(ex, [this, hd = std::move(hd), ec = imm_ec, v = imm_val]() mutable { if (on_complete) on_complete(ec, v); std::move(hd)(ec, v); });
      return;
    }
    if (!slotless) slot = hd.get_cancellation_slot();
    h.emplace(std::move(hd));
    if (slot.is_connected())
      slot.assign([this](asio::cancellation_type ct)
      {
        if (!waiting()) { stray_cancel = true; return; }
        cancels.push_back(ct);
        if (reaction == on_cancel::ignore) return;
        complete(asio::error::operation_aborted, 0, reaction == on_cancel::complete_posted);
      });
  }
  // completes the pending operation; posted: from a handler of its own
  bool complete(error_code ec, int v, bool posted = false)
  {
    if (!h) return false;
    completions++;
    if (slot.is_connected()) slot.clear();
    auto hd = std::move(*h);
    h.reset();
    if (posted)
    {
      auto ex = hd.get_executor();
      asio::post(ex, [this, hd = std::move(hd), ec, v]() mutable { if (on_complete) on_complete(ec, v); std::move(hd)(ec, v); });
    }
    else
    {
      if (on_complete) on_complete(ec, v);
      std::move(hd)(ec, v);
    }
    return true;
  }
  // the operation is abandoned: its handler is destroyed without being called
  bool drop()
  {
    if (!h) return false;
    if (slot.is_connected()) slot.clear();
    auto hd = std::move(*h);
    h.reset();
    return true;
  }
};

// ---- payloads
struct val : Live   // copyable, moved-from is recognisable
{
  int id = -1;
  val() = default;
  explicit val(int i) : id(i) {}
  val(const val &) = default;
  val(val && o) noexcept : Live(o), id(std::exchange(o.id, -2)) {}
  val & operator=(const val &) = default;
  val & operator=(val && o) noexcept { if (this != &o) id = std::exchange(o.id, -2); return *this; }
  ~val() { id = -3; }
};
struct mo : Live    // move only
{
  int id = -1;
  std::unique_ptr<int> heap;
  mo() = default;
  explicit mo(int i) : id(i), heap(new int(i)) {}
  mo(mo && o) noexcept : id(std::exchange(o.id, -2)), heap(std::move(o.heap)) {}
  mo & operator=(mo && o) noexcept { if (this != &o) { id = std::exchange(o.id, -2); heap = std::move(o.heap); } return *this; }
  ~mo() { id = -3; }
};
struct nodef : Live // not default constructible
{
  int id;
  explicit nodef(int i) : id(i) {}
  nodef(const nodef &) = default;
  nodef(nodef && o) noexcept : Live(o), id(std::exchange(o.id, -2)) {}
  nodef & operator=(const nodef &) = default;
  nodef & operator=(nodef && o) noexcept { if (this != &o) id = std::exchange(o.id, -2); return *this; }
};
template<typename T> int id_of(const T & t) { return t.id; }
inline int id_of(int i) { return i; }

// An outcome as the harness records it: value id, test_error id, or an error code
struct Outcome
{
  enum kind_t { none, value, error, aborted, other } kind = none;
  int id = 0;
  bool operator==(const Outcome &) const = default;
  static Outcome val(int i) { return {value, i}; }
  static Outcome err(int i) { return {error, i}; }
  static Outcome from(std::exception_ptr e)
  {
    if (!e) return {none, 0};
    auto i = ep_id(e);
    if (i == -2) return {aborted, 0};
    if (i >= 0) return {error, i};
    return {other, 0};
  }
  std::string str() const
  {
    switch (kind)
    {
      case none: return "nothing"; case value: return "value " + std::to_string(id); case error: return "exception " + std::to_string(id);
      case aborted: return "operation_aborted"; default: return "another error";
    }
  }
};
inline std::ostream & operator<<(std::ostream & os, const Outcome & o) { return os << o.str(); }

// first element of a tuple, or the thing itself (as_tuple of void coroutines)
template<typename T> auto && err_of(T && t)
{
  if constexpr (requires {std::get<0>(t);}) return std::get<0>(t); else return t;
}
inline Outcome of_error(std::exception_ptr e) { return Outcome::from(e); }
inline Outcome of_error(error_code ec) { return !ec ? Outcome{} : ec == asio::error::operation_aborted ? Outcome{Outcome::aborted, 0} : Outcome{Outcome::other, 0}; }

}
