// Workloads and oracles shared by the lattice harnesses.
#pragma once
#include "vf_grid.hpp"
#include <bwsl/Bravais.hpp>
#include <bwsl/Lattice.hpp>

namespace vf {
using bwsl::Bravais;
using bwsl::Lattice;
using rvec = std::vector<double>;

/// A Bravais lattice together with the data it was built from.
struct Bra
{
  std::string name;
  size_t dim = 0, gamma = 0;
  rvec a;   // a[j*dim+i]: component i of basis vector j
  rvec inv; // inv[i*dim+j]: row-major inverse of the matrix with columns a_j
  lvec dirs;
  Bravais br = bwsl::ChainLattice;
  double anorm = 0, inorm = 0; // largest basis vector and inverse row
};

inline bool
invert_basis(size_t d, rvec const& a, rvec& inv)
{
  // Gauss-Jordan in quad precision on M[i][j] = component i of vector j
  std::vector<f128> m(d * d), r(d * d, 0);
  for (size_t i = 0; i < d; i++)
    for (size_t j = 0; j < d; j++)
      m[i * d + j] = a[j * d + i];
  for (size_t i = 0; i < d; i++)
    r[i * d + i] = 1;
  for (size_t k = 0; k < d; k++) {
    size_t p = k;
    for (size_t i = k; i < d; i++)
      if (fabsq_(m[i * d + k]) > fabsq_(m[p * d + k]))
        p = i;
    if (fabsq_(m[p * d + k]) < 0.05)
      return false;
    for (size_t j = 0; j < d; j++) {
      std::swap(m[p * d + j], m[k * d + j]);
      std::swap(r[p * d + j], r[k * d + j]);
    }
    f128 s = m[k * d + k];
    for (size_t j = 0; j < d; j++) {
      m[k * d + j] /= s;
      r[k * d + j] /= s;
    }
    for (size_t i = 0; i < d; i++)
      if (i != k) {
        f128 f = m[i * d + k];
        for (size_t j = 0; j < d; j++) {
          m[i * d + j] -= f * m[k * d + j];
          r[i * d + j] -= f * r[k * d + j];
        }
      }
  }
  inv.resize(d * d);
  for (size_t i = 0; i < d * d; i++)
    inv[i] = static_cast<double>(r[i]);
  return true;
}

inline Bra
make_bra(std::string name, size_t dim, size_t gamma, rvec a, rvec inv, lvec dirs)
{
  Bra b{ name, dim, gamma, a, inv, dirs, Bravais(dim, gamma, a, inv, dirs) };
  for (size_t j = 0; j < dim; j++) {
    double n = 0, q = 0;
    for (size_t i = 0; i < dim; i++) {
      n += a[j * dim + i] * a[j * dim + i];
      q += inv[j * dim + i] * inv[j * dim + i];
    }
    b.anorm = std::max(b.anorm, std::sqrt(n));
    b.inorm = std::max(b.inorm, std::sqrt(q));
  }
  return b;
}

/// The four predefined lattices, as documented.
inline Bra
predefined(int k)
{
  const double r3 = 1.7320508075688772935;
  Bra b;
  switch (k) {
    case 0: b = make_bra("chain", 1, 2, { 1 }, { 1 }, { 1 }); b.br = bwsl::ChainLattice; break;
    case 1: b = make_bra("square", 2, 4, { 1, 0, 0, 1 }, { 1, 0, 0, 1 }, { 1, 0, 0, 1 }); b.br = bwsl::SquareLattice; break;
    case 2:
      b = make_bra("cubic", 3, 6, { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 1, 0, 0, 0, 1, 0, 0, 0, 1 });
      b.br = bwsl::CubicLattice;
      break;
    default:
      b = make_bra("triangular", 2, 6, { 1, 0, 0.5, r3 / 2 }, { 1, -1 / r3, 0, 2 / r3 }, { 1, 0, 0, 1, 1, -1 });
      b.br = bwsl::TriangularLattice;
      break;
  }
  return b;
}

/// Bra has no default Bravais; provide one through a chain.
inline Bra
random_bra(Ctx& c, size_t maxdim = 0, bool allow_pre = true)
{
  bool high = false; // five or six dimensions now and then
  if (maxdim == 0) {
    high = c.coin(1, 12);
    maxdim = high ? 6 : 4;
    if (high) allow_pre = false;
  }
  if (allow_pre && c.coin()) {
    for (;;) {
      Bra b = predefined(static_cast<int>(c.below(4)));
      if (b.dim <= maxdim)
        return b;
    }
  }
  for (int tries = 0;; tries++) {
    size_t d = high ? 5 + c.below(2) : 1 + c.below(maxdim);
    rvec a(d * d), inv;
    int style = high ? (c.coin() ? 0 : 4) : static_cast<int>(c.below(6));
    double tiny = std::ldexp(1.0, -static_cast<int>(8 + c.below(30)));
    double scale = c.coin(1, 4) ? std::ldexp(1.0, static_cast<int>(c.in(-8, 8))) : 1.0;
    for (size_t j = 0; j < d; j++)
      for (size_t i = 0; i < d; i++) {
        double diag = i == j ? 1.0 : 0.0, v;
        switch (style) {
          case 0: v = diag * (1.0 + c.unit()); break;                                          // orthorhombic
          case 1: v = diag + 0.8 * (c.unit() - 0.5); break;                                    // distorted
          case 2: v = diag + (j > i ? static_cast<double>(c.in(-3, 3)) : 0.0); break;          // sheared by whole cells
          case 3: v = diag + (j > i ? static_cast<double>(c.in(-8, 8)) / 4.0 : 0.0); break;    // sheared
          case 4: v = diag + tiny * static_cast<double>(c.in(-2, 2)); break;                   // almost cubic: images almost tie
          default: v = i == j ? 1.0 + 3 * c.unit() : c.unit() - 0.5; break;                    // very unequal lengths
        }
        a[j * d + i] = v;
      }
    if (tries > 20)
      for (size_t j = 0; j < d; j++)
        for (size_t i = 0; i < d; i++)
          a[j * d + i] = i == j ? 1.0 : 0.0;
    if (c.coin(1, 3)) // permute the axes, so nothing stays triangular
      for (size_t j = 0; j < d; j++)
        std::reverse(a.begin() + static_cast<long>(j * d), a.begin() + static_cast<long>((j + 1) * d));
    if (!invert_basis(d, a, inv))
      continue;
    for (auto& v : a) v *= scale;
    for (auto& v : inv) v /= scale;
    size_t half = c.coin(1, 8) ? 6 + c.below(20) : 1 + c.below(5);
    lvec dirs;
    for (size_t k = 0; k < half; k++) {
      bool zero = true;
      lvec v(d);
      for (auto& x : v) {
        x = static_cast<long>(c.coin(1, 4) ? c.in(-3, 3) : c.in(-1, 1));
        zero &= x == 0;
      }
      if (zero)
        v[c.below(d)] = 1;
      dirs.insert(dirs.end(), v.begin(), v.end());
    }
    Bra b = make_bra("custom" + std::to_string(style), d, 2 * half, a, inv, dirs);
    double cond = b.anorm * b.inorm;
    if (cond > (high ? 4 : 40))
      continue;
    return b;
  }
}

inline void
sig_bra(Ctx& c, Bra const& b) // (counted here: random_bra also runs in threads)
{
  if (b.gamma > 16) VF_EV("many_directions");
  if (b.dim > 4) VF_EV("high_dimension");
  c.sigs(b.name);
  for (double v : b.a) c.sigd(v);
  for (long v : b.dirs) c.sig(static_cast<u64>(v));
  if (b.name.substr(0, 6) == "custom")
    c.note("%s %s dirs %s ", b.name.c_str(), VS(b.a), VS(b.dirs));
  else
    c.note("%s ", b.name.c_str());
}

inline sizes_t
any_sizes(Ctx& c, size_t dim, u64 maxn)
{
  for (int k = 0; k < 1000; k++) {
    auto s = small_sizes(c, dim, maxn);
    if (s.size() == dim)
      return s;
    while (s.size() < dim)
      s.insert(s.begin() + static_cast<long>(c.below(s.size() + 1)), c.coin() ? 1 : 2);
    while (product(s) > maxn) {
      auto it = std::max_element(s.begin(), s.end());
      *it = (*it + 1) / 2;
    }
    return s;
  }
  return sizes_t(dim, 1);
}

/// sizes for a lattice, keeping the search for its closest images affordable
inline sizes_t
lattice_sizes(Ctx& c, Bra const& b, u64 maxn)
{
  if (b.dim > 4) {
    sizes_t s(b.dim, 1);
    for (auto& v : s) v = 1 + c.below(3);
    while (product(s) > 2 * maxn) s[c.below(s.size())] = 1;
    return s;
  }
  auto s = any_sizes(c, b.dim, maxn);
  for (;;) {
    double R = 0, vol = 1;
    for (size_t m = 0; m < b.dim; m++)
      R += 0.5 * static_cast<double>(s[m]) * b.anorm;
    for (size_t m = 0; m < b.dim; m++)
      vol *= std::max(1.0, 2 * R * b.inorm / static_cast<double>(s[m]) + 1);
    if (vol * static_cast<double>(product(s)) < 2e6)
      return s;
    auto it = std::max_element(s.begin(), s.end());
    if (*it == 1)
      return s;
    *it = (*it + 1) / 2;
  }
}

/// a lattice of more sites than 16 bits count, and not too oblique
inline sizes_t
large_lattice(Ctx& c, Bra& b, u64 from, u64 more)
{
  for (;;) {
    b = random_bra(c, 3);
    if (b.anorm * b.inorm < 4) break;
  }
  u64 want = from + c.below(more);
  sizes_t s(b.dim);
  double edge = std::pow(static_cast<double>(want), 1.0 / static_cast<double>(b.dim));
  for (auto& v : s) v = static_cast<u64>(edge * (1 + 0.3 * (c.unit() - 0.5)));
  for (auto& v : s) v += v == 0;
  while (product(s) < from) s[c.below(s.size())]++;
  VF_EV("large_lattices");
  return s;
}
/// all sites of a small lattice, some of a large one
inline std::vector<u64>
sites_of(Ctx& c, u64 n, u64 most)
{
  std::vector<u64> r;
  if (n <= most)
    for (u64 i = 0; i < n; i++) r.push_back(i);
  else {
    r = { 0, 1, n - 1, n - 2, n / 2 };
    for (u64 k : { 255ULL, 256ULL, 32767ULL, 32768ULL, 65535ULL, 65536ULL })
      if (k < n) r.push_back(k);
    while (r.size() < most) r.push_back(c.below(n));
  }
  return r;
}

/// real-space image of (integer or real) lattice coordinates, quad precision
template<class V>
std::vector<f128>
ref_real(Bra const& b, V const& x)
{
  std::vector<f128> r(b.dim, 0);
  for (size_t i = 0; i < b.dim; i++)
    for (size_t j = 0; j < b.dim; j++)
      r[i] += static_cast<f128>(x[j]) * static_cast<f128>(b.a[j * b.dim + i]);
  return r;
}
inline f128
lenq(std::vector<f128> const& v)
{
  f128 s = 0;
  for (f128 x : v)
    s += x * x;
  return sqrtq_(s);
}
inline double
leng(rvec const& v)
{
  double s = 0;
  for (double x : v)
    s += x * x;
  return std::sqrt(s);
}
/// tolerance for real-space results whose coordinates are at most n
inline double
rtol(Bra const& b, double n)
{
  return 64 * U * static_cast<double>(b.dim) * b.anorm * std::max(1.0, n) + 1e-300;
}
inline bool
close(rvec const& got, std::vector<f128> const& want, double tol)
{
  if (got.size() != want.size())
    return false;
  for (size_t i = 0; i < got.size(); i++)
    if (!near(got[i], want[i], tol))
      return false;
  return true;
}
inline std::string
strq(std::vector<f128> const& v)
{
  rvec r;
  for (f128 x : v)
    r.push_back(static_cast<double>(x));
  return str(r);
}
#define VSQ(v) (::vf::strq(v).c_str())

/// smallest length over all periodic images of the displacement d
inline double
min_image(Bra const& b, sizes_t const& s, lvec const& d, u64* count = nullptr)
{
  size_t n = b.dim;
  rvec irow(n, 0);
  for (size_t m = 0; m < n; m++) {
    for (size_t i = 0; i < n; i++)
      irow[m] += b.inv[m * n + i] * b.inv[m * n + i];
    irow[m] = std::sqrt(irow[m]);
  }
  auto length = [&](lvec const& x) {
    double t = 0;
    for (size_t i = 0; i < n; i++) {
      double v = 0;
      for (size_t j = 0; j < n; j++)
        v += static_cast<double>(x[j]) * b.a[j * n + i];
      t += v * v;
    }
    return std::sqrt(t);
  };
  // a first guess: every coordinate reduced to the middle
  lvec x(n);
  for (size_t m = 0; m < n; m++) {
    long L = static_cast<long>(s[m]);
    x[m] = pmod(d[m], L);
    if (2 * x[m] > L)
      x[m] -= L;
  }
  double best = length(x);
  const double reach = best;
  // all images inside the box that contains the ball of that radius
  std::vector<lvec> cand(n);
  for (size_t m = 0; m < n; m++) {
    long L = static_cast<long>(s[m]);
    double R = reach * irow[m] * (1 + 1e-6) + 1e-6;
    long lo = -static_cast<long>(std::ceil(R)), hi = static_cast<long>(std::ceil(R));
    for (long v = lo + pmod(static_cast<i128>(d[m]) - lo, L); v <= hi; v += L)
      cand[m].push_back(v);
    if (cand[m].empty())
      cand[m].push_back(x[m]);
  }
  std::vector<size_t> k(n, 0);
  u64 seen = 0;
  for (;;) {
    for (size_t m = 0; m < n; m++)
      x[m] = cand[m][k[m]];
    best = std::min(best, length(x));
    seen++;
    size_t m = 0;
    while (m < n && ++k[m] == cand[m].size())
      k[m++] = 0;
    if (m == n)
      break;
  }
  if (count)
    *count += seen;
  return best;
}

/// lattice coordinates of a real vector, if it is a lattice point
inline bool
lattice_point(Bra const& b, rvec const& v, lvec& x)
{
  x.assign(b.dim, 0);
  for (size_t i = 0; i < b.dim; i++) {
    f128 s = 0;
    for (size_t j = 0; j < b.dim; j++)
      s += static_cast<f128>(b.inv[i * b.dim + j]) * static_cast<f128>(v[j]);
    double r = std::nearbyint(static_cast<double>(s));
    if (!(fabsq_(s - r) < 1e-6))
      return false;
    x[i] = static_cast<long>(r);
  }
  return true;
}
} // namespace vf
