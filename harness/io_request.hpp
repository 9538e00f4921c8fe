// Scattered memory to read into or write from.
#pragma once
#include "pbt.hpp"
#include <boost/asio/buffer.hpp>
#include <vector>
using data_t = std::vector<unsigned char>;
struct request // scattered memory to read into or write from
{
  data_t mem; std::vector<std::pair<std::size_t, std::size_t>> parts; std::size_t size = 0;
  request(pbt::Src & src, unsigned char first, std::uint32_t big = 700)
  {
    std::size_t at = 1, count = src.chance(1, 20) ? 64 + src.below(30) : src.below(4);
    for (std::size_t i = 0; i < count; i++) { std::size_t len = src.chance(1, 6) ? 0 : src.below(count > 60 ? 5 : src.chance(1, 8) ? big : 40); if (count > 60 && i % 60 == 0) len++; // 64 empty buffers are all that one system call gets
      parts.emplace_back(at, len); at += len + 1; size += len; }
    mem.resize(at + 1); for (std::size_t i = 0; i < mem.size(); i++) mem[i] = static_cast<unsigned char>(first + i);
  }
  explicit request(std::size_t n) : mem(n + 2), parts{{1, n}}, size(n) {}
  template<typename B> std::vector<B> buffers() { std::vector<B> r; for (auto & p : parts) r.emplace_back(mem.data() + p.first, p.second); return r; }
  data_t flat() const { data_t r; for (auto & p : parts) r.insert(r.end(), mem.begin() + std::ptrdiff_t(p.first), mem.begin() + std::ptrdiff_t(p.first + p.second)); return r; }
  void put(const unsigned char * d, std::size_t n) { for (auto & p : parts) for (std::size_t i = 0; i < p.second; i++) { if (!n--) return; mem[p.first + i] = *d++; } }
};
