// Lattice distances and vectors follow the minimum-image convention.
#include "vf_lattice.hpp"
using namespace vf;

void
run_case(Ctx& c)
{
  Bra b = random_bra(c);
  bool closed = c.coin(3, 4);
  auto s = lattice_sizes(c, b, b.dim >= 4 ? 24 : c.coin(1, 8) ? 90 : 36);
  if (!VF_SAN && !c.fuzzing() && c.coin(1, 400)) s = c.coin() ? large_lattice(c, b, 65000, 30000) : large_lattice(c, b, 300, 1000);
  B bc = closed ? B::Closed : B::Open;
  sig_bra(c, b);
  sig_sizes(c, s, bc);
  u64 n = product(s);
  c.nontrivial = n > 1;
  Lattice l(b.br, s, bc);
  if (closed && c.coin(1, 3)) {
    VF_EV("default_boundaries");
    l = Lattice(b.br, s);
    VF_CHECK(l.HasClosedBoundaries(), "default_closed", "the default boundaries are closed");
  }
  double ext = 0;
  for (u64 v : s) ext = std::max(ext, static_cast<double>(v));
  double tol = rtol(b, 4 * ext) * 8;
  u64 images = 0;
  std::map<lvec, double> memo;
  for (u64 i : sites_of(c, n, 120)) {
    auto ci = ref_coords(i, s);
    VF_CHECK(close(l.GetPosition(i), ref_real(b, ci), tol), "position", "GetPosition(%llu)=%s, expected %s", (unsigned long long)i, VS(l.GetPosition(i)), VSQ(ref_real(b, ci)));
    for (u64 j : sites_of(c, n, 120)) {
      auto cj = ref_coords(j, s);
      lvec d(b.dim);
      for (size_t k = 0; k < b.dim; k++) d[k] = cj[k] - ci[k];
      double dist = l.GetDistance(i, j);
      auto v = l.GetVector(i, j);
      VF_CHECK(v.size() == b.dim, "vector.dim", "size");
      if (closed) {
        lvec key(b.dim);
        for (size_t k = 0; k < b.dim; k++) key[k] = pmod(d[k], s[k]);
        auto it = memo.find(key);
        if (it == memo.end())
          it = memo.emplace(key, min_image(b, s, key, &images)).first;
        VF_CHECK(std::fabs(dist - it->second) <= tol, "distance.min_image", "GetDistance(%llu,%llu)=%.17g, nearest image at %.17g", (unsigned long long)i, (unsigned long long)j, dist, it->second);
        lvec x;
        VF_CHECK(lattice_point(b, v, x), "vector.lattice", "GetVector(%llu,%llu)=%s is no lattice vector", (unsigned long long)i, (unsigned long long)j, VS(v));
        VF_CHECK(close(v, ref_real(b, x), tol), "vector.exact", "GetVector(%llu,%llu)=%s", (unsigned long long)i, (unsigned long long)j, VS(v));
        for (size_t k = 0; k < b.dim; k++)
          VF_CHECK((x[k] - d[k]) % static_cast<long>(s[k]) == 0, "vector.image", "GetVector(%llu,%llu)=%s is no image of the displacement", (unsigned long long)i, (unsigned long long)j, VS(v));
      } else {
        auto w = ref_real(b, d);
        VF_CHECK(near(dist, lenq(w), tol), "distance.open", "GetDistance(%llu,%llu)=%.17g, expected %.17g", (unsigned long long)i, (unsigned long long)j, dist, static_cast<double>(lenq(w)));
        VF_CHECK(close(v, w, tol), "vector.open", "GetVector(%llu,%llu)=%s, expected %s", (unsigned long long)i, (unsigned long long)j, VS(v), VSQ(w));
      }
      VF_CHECK(std::fabs(leng(v) - dist) <= tol, "vector.length", "vector %s of length %.17g, distance %.17g", VS(v), leng(v), dist);
      VF_CHECK(std::fabs(dist - l.GetDistance(j, i)) <= tol, "symmetric", "distances of %llu and %llu: %.17g, %.17g", (unsigned long long)i, (unsigned long long)j, dist, l.GetDistance(j, i));
      VF_CHECK((dist == 0) == (i == j), "zero", "GetDistance(%llu,%llu)=%.17g", (unsigned long long)i, (unsigned long long)j, dist);
    }
  }
  events()["images"] += images;
  if (closed)
    for (int r = 0; r < 40; r++) {
      u64 x = c.below(n), y = c.below(n);
      lvec t(b.dim), tx = ref_coords(x, s), ty = ref_coords(y, s);
      for (size_t k = 0; k < b.dim; k++) {
        t[k] = static_cast<long>(c.below(s[k]));
        tx[k] = pmod(tx[k] + t[k], s[k]);
        ty[k] = pmod(ty[k] + t[k], s[k]);
      }
      double d1 = l.GetDistance(x, y), d2 = l.GetDistance(ref_index(tx, s), ref_index(ty, s));
      VF_CHECK(std::fabs(d1 - d2) <= tol, "translation", "distance %.17g becomes %.17g when moved by %s", d1, d2, VS(t));
    }
}
