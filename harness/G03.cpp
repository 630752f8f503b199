// Jumps are the shortest displacements; walks wind in whole turns.
#include "vf_grid.hpp"
#include <bwsl/Lattice.hpp>
using namespace vf;

template<class G>
static void
check_jump(G const& g, sizes_t const& s, B b, u64 x, u64 y)
{
  auto cx = ref_coords(x, s), cy = ref_coords(y, s);
  auto j = g.GetJump(x, y);
  VF_CHECK(j.size() == s.size(), "jump.dim", "jump of dimension %zu", j.size());
  for (size_t i = 0; i < s.size(); i++) {
    i128 d = static_cast<i128>(cy[i]) - cx[i], L = static_cast<i128>(s[i]), J = j[i];
    if (b == B::Open)
      VF_CHECK(J == d, "jump.open", "GetJump(%llu,%llu)=%s on open %s", (unsigned long long)x, (unsigned long long)y, VS(j), VS(s));
    else {
      VF_CHECK((J - d) % L == 0, "jump.congruent", "GetJump(%llu,%llu)=%s is not b-a modulo %s", (unsigned long long)x, (unsigned long long)y, VS(j), VS(s));
      VF_CHECK(2 * J > -L && 2 * J <= L, "jump.range", "GetJump(%llu,%llu)=%s outside (-L/2, L/2] on %s", (unsigned long long)x, (unsigned long long)y, VS(j), VS(s));
    }
  }
}

void
run_case(Ctx& c)
{
  int kind = static_cast<int>(c.below(8));
  B b = c.coin(3, 4) ? B::Closed : B::Open;
  if (kind < 2) {
    auto s = small_sizes(c, 5, 90);
    sig_sizes(c, s, b);
    u64 n = product(s);
    c.nontrivial = n > 1;
    Grid g(s, b);
    for (u64 x = 0; x < n; x++)
      for (u64 y = 0; y < n; y++)
        check_jump(g, s, b, x, y);
  } else if (kind < 5) {
    auto s = big_sizes(c, 5, 61);
    sig_sizes(c, s, b);
    u64 n = product(s);
    c.nontrivial = true;
    VF_EV("big_grids");
    Grid g(s, b);
    for (int r = 0; r < 60; r++) {
      u64 x = some_site(c, n), y;
      if (c.coin()) { // aim at ties and their neighbourhood
        auto cx = ref_coords(x, s);
        for (size_t i = 0; i < s.size(); i++)
          cx[i] = pmod(static_cast<i128>(cx[i]) + (c.coin() ? 1 : -1) * static_cast<i128>(s[i] / 2) + static_cast<i128>(c.in(-1, 1)), s[i]);
        y = ref_index(cx, s);
      } else
        y = some_site(c, n);
      check_jump(g, s, b, x, y);
    }
  } else {
    // closed walks on a closed lattice or grid
    static const bwsl::Bravais* lat[4];
    lat[0] = &bwsl::ChainLattice; lat[1] = &bwsl::SquareLattice;
    lat[2] = &bwsl::CubicLattice; lat[3] = &bwsl::TriangularLattice;
    auto const& br = *c.pick(lat);
    size_t dim = br.GetDim();
    sizes_t s(dim);
    u64 cap = dim == 1 ? 60 : dim == 2 ? 12 : 6;
    for (auto& v : s)
      v = 1 + c.below(cap);
    sig_sizes(c, s, B::Closed);
    u64 n = product(s);
    bwsl::Lattice l(br, s, B::Closed);
    u64 start = c.below(n), cur = start;
    lvec total(dim, 0), truth(dim, 0), x = ref_coords(start, s);
    // every hop is shorter than half the system in each direction
    auto hop = [&](lvec const& d) {
      lvec nx(dim);
      for (size_t i = 0; i < dim; i++)
        nx[i] = pmod(static_cast<i128>(x[i]) + d[i], s[i]);
      u64 nxt = ref_index(nx, s);
      auto j = l.GetJump(cur, nxt);
      VF_CHECK(j == d, "walk.hop", "hop %s reported as %s on %s", VS(d), VS(j), VS(s));
      for (size_t i = 0; i < dim; i++) {
        total[i] += j[i];
        truth[i] += d[i];
      }
      cur = nxt;
      x = nx;
      c.sig(nxt);
    };
    lvec maxhop(dim);
    for (size_t i = 0; i < dim; i++)
      maxhop[i] = static_cast<long>((s[i] - 1) / 2);
    int steps = static_cast<int>(c.below(120));
    lvec drift(dim);
    for (auto& d : drift)
      d = static_cast<long>(c.in(-1, 1));
    for (int k = 0; k < steps; k++) {
      lvec d(dim, 0);
      for (size_t i = 0; i < dim; i++) {
        if (maxhop[i] == 0)
          continue;
        d[i] = drift[i] && c.coin(2, 3) ? drift[i] * static_cast<long>(1 + c.below(static_cast<u64>(maxhop[i])))
                                        : static_cast<long>(c.in(-maxhop[i], maxhop[i]));
      }
      hop(d);
    }
    // close the walk, in the direction of the drift or by the shortest way
    auto cs = ref_coords(start, s);
    int guard = 0;
    while (cur != start && guard++ < 400) {
      lvec d(dim, 0);
      for (size_t i = 0; i < dim; i++) {
        if (x[i] == cs[i] || maxhop[i] == 0)
          continue;
        long rem = cs[i] - x[i];
        if (drift[i] > 0 && rem < 0) rem += static_cast<long>(s[i]);
        if (drift[i] < 0 && rem > 0) rem -= static_cast<long>(s[i]);
        d[i] = std::max(-maxhop[i], std::min(maxhop[i], rem));
      }
      bool any = false;
      for (long v : d) any |= v != 0;
      if (!any)
        break; // size 2: no hop is shorter than half the system
      hop(d);
    }
    if (cur == start) {
      c.nontrivial = steps > 0;
      lvec w(dim);
      for (size_t i = 0; i < dim; i++) {
        long L = static_cast<long>(s[i]);
        VF_CHECK(total[i] % L == 0, "walk.whole_turns", "closed walk sums to %s on %s", VS(total), VS(s));
        w[i] = truth[i] / L;
        if (w[i]) VF_EV("wound_walks");
      }
      auto got = l.GetWinding(total);
      VF_CHECK(got == w, "winding", "GetWinding(%s)=%s, expected %s on %s", VS(total), VS(got), VS(w), VS(s));
      c.note("walk of %d hops winds %s", steps, VS(w));
    }
    // any multiple of the sizes, including large ones of both signs
    for (int r = 0; r < 6; r++) {
      lvec w(dim), t(dim);
      for (size_t i = 0; i < dim; i++) {
        w[i] = c.spread(50);
        t[i] = w[i] * static_cast<long>(s[i]);
      }
      auto got = l.GetWinding(t);
      VF_CHECK(got == w, "winding", "GetWinding(%s)=%s, expected %s on %s", VS(t), VS(got), VS(w), VS(s));
    }
    // open lattices report the plain displacement
    bwsl::Lattice lo(br, s, B::Open);
    for (int r = 0; r < 10; r++)
      check_jump(lo, s, B::Open, some_site(c, n), some_site(c, n));
    for (int r = 0; r < 10; r++)
      check_jump(l, s, B::Closed, some_site(c, n), some_site(c, n));
  }
}
