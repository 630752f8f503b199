// Neighbour lists are exactly the wrapped nearest-neighbour directions.
#include "vf_lattice.hpp"
using namespace vf;

void
run_case(Ctx& c)
{
  Bra b = random_bra(c);
  bool closed = c.coin(3, 5);
  auto s = lattice_sizes(c, b, c.coin(1, 8) ? 150 : 40);
  if (!VF_SAN && !c.fuzzing() && c.coin(1, 600)) s = c.coin() ? large_lattice(c, b, 65000, 30000) : large_lattice(c, b, 300, 1000);
  B bc = closed ? B::Closed : B::Open;
  sig_bra(c, b);
  sig_sizes(c, s, bc);
  u64 n = product(s);
  c.nontrivial = true;
  Lattice l(b.br, s, bc);
  std::vector<std::vector<size_t>> ref(n);
  for (u64 i = 0; i < n; i++) {
    auto ci = ref_coords(i, s);
    for (size_t k = 0; k < b.gamma; k++) {
      // the directions of the infinite lattice, in its own order
      auto cj = b.br.GetNeighbor(ci, k);
      bool on = true;
      for (size_t m = 0; m < b.dim; m++) {
        if (cj[m] < 0 || cj[m] >= static_cast<long>(s[m]))
          on = false;
        cj[m] = pmod(cj[m], s[m]);
      }
      if (closed || on)
        ref[i].push_back(ref_index(cj, s));
      else
        VF_EV("dropped");
      if (!on && closed)
        VF_EV("wrapped");
    }
  }
  for (u64 i : sites_of(c, n, 400)) {
    auto const& got = l.GetNeighbors(i);
    VF_CHECK(got == ref[i], "list", "GetNeighbors(%llu)=%s, expected %s", (unsigned long long)i, VS(got), VS(ref[i]));
    VF_CHECK(l.GetCoordination(i) == ref[i].size(), "coordination", "GetCoordination(%llu)=%zu, list of %zu", (unsigned long long)i, l.GetCoordination(i), ref[i].size());
    if (closed)
      VF_CHECK(l.GetCoordination(i) == b.gamma, "coordination.full", "GetCoordination(%llu)=%zu", (unsigned long long)i, l.GetCoordination(i));
    auto others = sites_of(c, n, 400);
    if (n > 400) others.insert(others.end(), ref[i].begin(), ref[i].end());
    for (u64 j : others) {
      bool in = std::find(ref[i].begin(), ref[i].end(), j) != ref[i].end();
      if (in) VF_EV("neighbour_pairs");
      VF_CHECK(l.AreNeighbors(i, j) == in, "are_neighbours", "AreNeighbors(%llu,%llu)=%d", (unsigned long long)i, (unsigned long long)j, (int)!in);
      if (n <= 60) {
        auto const& other = l.GetNeighbors(j);
        VF_CHECK(std::count(got.begin(), got.end(), j) == std::count(other.begin(), other.end(), i), "symmetric", "multiplicities of %llu and %llu", (unsigned long long)i, (unsigned long long)j);
      }
    }
  }
  VF_CHECK(l.GetCoordination() == (closed ? b.gamma : ref[0].size()), "coordination.lattice", "GetCoordination()=%zu", l.GetCoordination());
}
