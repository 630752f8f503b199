// Momenta of a closed lattice are the allowed wave vectors.
#include "vf_lattice.hpp"
using namespace vf;

void
run_case(Ctx& c)
{
  Bra b = random_bra(c);
  auto s = lattice_sizes(c, b, c.coin(1, 8) ? 400 : 80);
  if (!VF_SAN && !c.fuzzing() && c.coin(1, 500)) s = c.coin() ? large_lattice(c, b, 65000, 30000) : large_lattice(c, b, 300, 1000);
  sig_bra(c, b);
  sig_sizes(c, s, B::Closed);
  u64 n = product(s);
  c.nontrivial = n > 1;
  Lattice l(b.br, s, B::Closed);
  double ext = 0;
  for (u64 v : s) ext = std::max(ext, static_cast<double>(v));
  f128 tol = 2000 * U * static_cast<double>(b.dim * b.dim) * b.anorm * b.inorm;
  bool zero = false;
  std::vector<lvec> cls;
  for (u64 i = 0; i < n; i++) {
    auto k = l.GetMomentum(i);
    auto ci = ref_coords(i, s);
    VF_CHECK(k.size() == b.dim, "dim", "momentum %llu has %zu components", (unsigned long long)i, k.size());
    lvec q(b.dim);
    for (size_t m = 0; m < b.dim; m++) {
      // k . (L_m a_m) must be 2 pi times an integer
      f128 dot = 0;
      for (size_t x = 0; x < b.dim; x++)
        dot += static_cast<f128>(k[x]) * static_cast<f128>(b.a[m * b.dim + x]);
      f128 turns = dot * static_cast<f128>(s[m]) / (2 * PIQ);
      double r = std::nearbyint(static_cast<double>(turns));
      VF_CHECK(fabsq_(turns - r) <= tol * ext, "compatible", "momentum %llu: phase along period %zu is %.17g turns", (unsigned long long)i, m, static_cast<double>(turns));
      long want = ci[m] - static_cast<long>(s[m] / 2);
      VF_CHECK(static_cast<long>(r) == want, "index", "momentum %llu=%s has component %ld along %zu, expected %ld", (unsigned long long)i, VS(k), static_cast<long>(r), m, want);
      q[m] = pmod(static_cast<long>(r), s[m]);
    }
    cls.push_back(q);
    bool z = true;
    for (double v : k) z &= v == 0.0;
    zero |= z;
  }
  std::sort(cls.begin(), cls.end());
  VF_CHECK(std::adjacent_find(cls.begin(), cls.end()) == cls.end(), "inequivalent", "two momenta of %s are equivalent", VS(s));
  VF_CHECK(zero, "zero", "no zero momentum on %s", VS(s));
}
