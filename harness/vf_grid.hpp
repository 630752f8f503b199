// Workloads and oracles shared by the grid harnesses.
#pragma once
#include "vf.hpp"
#include <array>
#include <deque>
#include <bwsl/HyperCubicGrid.hpp>

namespace vf {
using Grid = bwsl::HyperCubicGrid;
using B = Grid::boundaries_t;
using sizes_t = std::vector<size_t>;
using lvec = std::vector<long>;

/// sizes whose product is at most maxn
inline sizes_t
small_sizes(Ctx& c, size_t maxdim, u64 maxn)
{
  size_t dim = 1 + c.below(maxdim);
  if (maxdim >= 5 && c.coin(1, 20)) dim = maxdim + 1 + c.below(30); // many dimensions
  sizes_t s(dim);
  u64 prod = 1;
  int style = static_cast<int>(c.below(7));
  size_t special = c.below(dim);
  u64 same = 1 + c.below(6);
  for (size_t i = 0; i < dim; i++) {
    u64 room = std::max<u64>(1, maxn / prod);
    u64 v;
    switch (style) {
      case 0: v = same; break;                                // equal
      case 1: v = 1 + c.below(3); break;                      // 1,2,3
      case 2: v = i == special ? 1 + c.below(room) : 1 + c.below(2); break; // very unequal
      case 3: v = 2 * (1 + c.below(4)); break;                // even
      case 4: v = 2 * c.below(4) + 1; break;                  // odd
      case 5: v = 2 + i + c.below(2); break;                  // growing
      default: v = 1 + c.below(8); break;
    }
    if (v > room)
      v = room;
    s[i] = v;
    prod *= v;
  }
  return s;
}

/// sizes with a huge product that still fits 63 bits
inline sizes_t
big_sizes(Ctx& c, size_t maxdim, int maxbits = 62)
{
  size_t dim = 1 + c.below(maxdim);
  if (maxdim >= 5 && c.coin(1, 20)) dim = maxdim + 1 + c.below(60);
  sizes_t s(dim);
  int room = maxbits;
  for (size_t i = 0; i < dim; i++) {
    int b = static_cast<int>(c.below(static_cast<u64>(dim > maxdim ? std::min(room, 3) : room) + 1));
    if (i + 1 == dim && c.coin())
      b = room;
    u64 v = b == 0 ? 1 : (c.coin() ? (1ULL << b) : ((1ULL << (b - 1)) + c.below(1ULL << (b - 1)) + 1));
    if (c.coin(1, 4) && b > 0)
      v = (1ULL << b) - 1;
    if (v == 0)
      v = 1;
    room -= b;
    s[i] = v;
  }
  for (size_t i = 0; i + 1 < dim; i++) { // any position may hold the big one
    size_t j = i + c.below(dim - i);
    std::swap(s[i], s[j]);
  }
  return s;
}

inline u64
product(sizes_t const& s)
{
  u128 p = 1;
  for (u64 v : s)
    p *= v;
  return static_cast<u64>(p);
}

/// row-major coordinates of an index, written independently of the library
inline lvec
ref_coords(u64 idx, sizes_t const& s)
{
  lvec r(s.size());
  for (size_t i = s.size(); i-- > 0;) {
    r[i] = static_cast<long>(idx % s[i]);
    idx /= s[i];
  }
  return r;
}
inline u64
ref_index(lvec const& x, sizes_t const& s)
{
  u64 r = 0;
  for (size_t i = 0; i < s.size(); i++)
    r = r * s[i] + static_cast<u64>(x[i]);
  return r;
}
inline long
pmod(i128 a, i128 m)
{
  i128 r = a % m;
  return static_cast<long>(r < 0 ? r + m : r);
}
inline u64
some_site(Ctx& c, u64 n)
{
  switch (c.below(5)) {
    case 0: return 0;
    case 1: return n - 1;
    case 2: return n / 2;
    default: return c.below(n);
  }
}
inline void
sig_sizes(Ctx& c, sizes_t const& s, B b)
{
  for (u64 v : s)
    c.sig(v);
  c.sig(b == B::Open);
  c.note("%s grid %s ", b == B::Open ? "open" : "closed", VS(s));
}
} // namespace vf
