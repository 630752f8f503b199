// Wrapping and relative sites respect the boundaries.
#include "vf_grid.hpp"
#include <bwsl/Lattice.hpp>
using namespace vf;

template<class G>
static void
wrapping(Ctx& c, G const& g, sizes_t const& s, B b, int reps, const char* what)
{
  for (int r = 0; r < reps; r++) {
    lvec x(s.size()), want(s.size());
    for (size_t i = 0; i < s.size(); i++) {
      long L = static_cast<long>(s[i]);
      i128 far = static_cast<i128>(L) * static_cast<i128>(c.coin(1, 4) ? 1 + c.bits64() % (1ULL << 62) : c.in(1, 20000));
      if (far > (static_cast<i128>(1) << 62))
        far = (static_cast<i128>(1) << 62) / L * L;
      if (far > static_cast<i128>(L) * 1000000) VF_EV("wrap.very_far");
      switch (c.below(14)) {
        case 12: x[i] = c.coin() ? INT64_MAX - static_cast<long>(c.below(1000)) : INT64_MIN + static_cast<long>(c.below(1000)); break;
        case 13: x[i] = static_cast<long>(c.bits64()); break;
        case 0: x[i] = 0; break;
        case 1: x[i] = L; break;
        case 2: x[i] = -1; break;
        case 3: x[i] = -L; break;
        case 4: x[i] = L - 1; break;
        case 5: x[i] = -L - 1; break;
        case 6: x[i] = static_cast<long>(far); break;
        case 7: x[i] = -static_cast<long>(far); break;
        case 8: x[i] = static_cast<long>(far) - 1; break;
        case 9: x[i] = static_cast<long>(c.below(2 * static_cast<u64>(far) > 0 ? static_cast<u64>(far) : 1)) - static_cast<long>(far / 2); break;
        case 10: x[i] = static_cast<long>(c.in(0, 40)) - 20; break;
        default: x[i] = static_cast<long>(c.below(s[i])) + L * static_cast<long>(L < (1L << 40) ? c.in(-5, 5) : c.in(-1, 1)); break;
      }
      want[i] = b == B::Closed ? pmod(x[i], L) : x[i];
    }
    if (b == B::Open && c.coin(1, 4)) {
      x[c.below(s.size())] = c.coin() ? INT64_MIN : INT64_MAX;
      want = x;
    }
    auto y = x;
    g.EnforceBoundaries(y);
    VF_CHECK(y == want, b == B::Closed ? "wrap.closed" : "wrap.open", "%s: EnforceBoundaries(%s)=%s, expected %s on %s", what, VS(x), VS(y), VS(want), VS(s));
    if (b == B::Closed)
      VF_CHECK(g.IsOnGrid(y), "wrap.inside", "%s: wrapped %s not on %s", what, VS(y), VS(s));
  }
}

static u64
ref_map(u64 a, u64 b, sizes_t const& s, int sign)
{
  auto ca = ref_coords(a, s), cb = ref_coords(b, s);
  for (size_t i = 0; i < s.size(); i++)
    ca[i] = pmod(static_cast<i128>(cb[i]) + sign * static_cast<i128>(ca[i]), s[i]);
  return ref_index(ca, s);
}

template<class G>
static void
one_pair(Ctx& c, G const& g, sizes_t const& s, u64 a, u64 b, u64 n)
{
  u64 m = g.GetMappedSite(a, b);
  VF_CHECK(m < n && m == ref_map(a, b, s, -1), "mapped", "GetMappedSite(%llu,%llu)=%llu, expected %llu on %s",
           (unsigned long long)a, (unsigned long long)b, (unsigned long long)m, (unsigned long long)ref_map(a, b, s, -1), VS(s));
  u64 u = g.GetUnMappedSite(m, a);
  VF_CHECK(u == b, "unmapped", "GetUnMappedSite(%llu,%llu)=%llu, expected %llu on %s", (unsigned long long)m, (unsigned long long)a, (unsigned long long)u, (unsigned long long)b, VS(s));
}

void
run_case(Ctx& c)
{
  int kind = static_cast<int>(c.below(8));
  B b = c.coin(3, 4) ? B::Closed : B::Open;
  if (kind < 4) { // small grids: all pairs
    auto s = small_sizes(c, 5, c.coin(1, 6) ? 120 : 40);
    sig_sizes(c, s, b);
    u64 n = product(s);
    c.nontrivial = n > 1;
    Grid g(s, b);
    wrapping(c, g, s, b, 8, "grid");
    if (b == B::Closed) {
      for (u64 x = 0; x < n; x++)
        for (u64 y = 0; y < n; y++)
          one_pair(c, g, s, x, y, n);
      // depends only on the difference: move both by the same site
      for (int r = 0; r < 20; r++) {
        u64 x = c.below(n), y = c.below(n), t = c.below(n);
        u64 x2 = g.GetUnMappedSite(t, x), y2 = g.GetUnMappedSite(t, y);
        VF_CHECK(g.GetMappedSite(x, y) == g.GetMappedSite(x2, y2), "translation", "pairs (%llu,%llu) and (%llu,%llu) differ on %s",
                 (unsigned long long)x, (unsigned long long)y, (unsigned long long)x2, (unsigned long long)y2, VS(s));
      }
    }
  } else if (kind < 7) { // huge grids: random pairs
    auto s = big_sizes(c, 5, 61);
    sig_sizes(c, s, b);
    u64 n = product(s);
    c.nontrivial = true;
    VF_EV("big_grids");
    Grid g(s, b);
    wrapping(c, g, s, b, 12, "grid");
    if (b == B::Closed)
      for (int r = 0; r < 40; r++)
        one_pair(c, g, s, some_site(c, n), some_site(c, n), n);
  } else { // lattices wrap like their grid
    static const bwsl::Bravais* lat[] = { nullptr, nullptr, nullptr, nullptr };
    lat[0] = &bwsl::ChainLattice; lat[1] = &bwsl::SquareLattice;
    lat[2] = &bwsl::CubicLattice; lat[3] = &bwsl::TriangularLattice;
    auto const& br = *c.pick(lat);
    sizes_t s(br.GetDim());
    for (auto& v : s)
      v = 1 + c.below(6);
    sig_sizes(c, s, b);
    u64 n = product(s);
    c.nontrivial = n > 1;
    c.note("lattice");
    bwsl::Lattice l(br, s, b);
    wrapping(c, l, s, b, 16, "lattice");
    VF_EV("lattices");
    if (b == B::Closed)
      for (int r = 0; r < 30; r++)
        one_pair(c, l, s, some_site(c, n), some_site(c, n), n);
  }
}
