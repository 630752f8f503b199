// Bravais lattices: real space, inverse and reciprocal bases are consistent.
#include "vf_lattice.hpp"
using namespace vf;

static lvec
point(Ctx& c, size_t d, i64 range)
{
  lvec x(d);
  for (auto& v : x)
    v = static_cast<long>(c.coin(1, 6) ? 0 : c.coin(1, 2) ? c.in(-5, 5) : c.in(-range, range));
  return x;
}

void
run_case(Ctx& c)
{
  Bra b = random_bra(c, c.coin(1, 5) ? 8 : 4);
  sig_bra(c, b);
  size_t d = b.dim;
  auto const& br = b.br;
  VF_CHECK(br.GetDim() == d && br.GetGamma() == b.gamma, "shape", "dim %zu gamma %zu", br.GetDim(), br.GetGamma());
  c.nontrivial = true;
  i64 range = c.coin(1, 5) ? 1000000 : c.coin(1, 6) ? static_cast<i64>(1) << 40 : 50;
  if (range > 1000000) VF_EV("far_coordinates");
  for (int r = 0; r < 10; r++) {
    auto x = point(c, d, range), y = point(c, d, range);
    if (c.coin(1, 10)) y = x;
    auto rx = br.GetRealSpace(x);
    double big = 0;
    for (size_t i = 0; i < d; i++)
      big = std::max({ big, std::fabs(static_cast<double>(x[i])), std::fabs(static_cast<double>(y[i])) });
    double tol = rtol(b, 2 * big);
    auto want = ref_real(b, x);
    VF_CHECK(close(rx, want, tol), "real_space", "GetRealSpace%s=%s, expected %s", VS(x), VS(rx), VSQ(want));
    // linear in the coordinates
    lvec sum(d);
    long p = static_cast<long>(c.in(-3, 3)), q = static_cast<long>(c.in(-3, 3));
    for (size_t i = 0; i < d; i++) sum[i] = p * x[i] + q * y[i];
    auto rs = br.GetRealSpace(sum), ry = br.GetRealSpace(y);
    for (size_t i = 0; i < d; i++)
      VF_CHECK(std::fabs(rs[i] - (static_cast<double>(p) * rx[i] + static_cast<double>(q) * ry[i])) <= 16 * tol, "linear", "R(%ld%s%+ld%s)=%s", p, VS(x), q, VS(y), VS(rs));
    // the inverse recovers lattice coordinates, also of non-lattice vectors
    rvec f(d);
    double fbig = 0;
    for (size_t i = 0; i < d; i++) {
      f[i] = c.coin() ? static_cast<double>(x[i]) : static_cast<double>(x[i]) + c.unit();
      fbig = std::max(fbig, std::fabs(f[i]));
    }
    auto rf = ref_real(b, f);
    rvec rfd(d);
    for (size_t i = 0; i < d; i++) rfd[i] = static_cast<double>(rf[i]);
    auto back = br.GetInverseVector(rfd);
    double itol = 200 * U * static_cast<double>(d * d) * b.anorm * b.inorm * std::max(1.0, fbig);
    VF_CHECK(back.size() == d, "inverse", "size");
    for (size_t i = 0; i < d; i++)
      VF_CHECK(std::fabs(back[i] - f[i]) <= itol, "inverse", "GetInverseVector%s=%s, expected %s", VS(rfd), VS(back), VS(f));
    // reciprocal vectors
    auto m = point(c, d, 50);
    auto km = br.GetReciprocalSpace(m);
    VF_CHECK(km.size() == d, "reciprocal", "size");
    f128 dot = 0;
    i128 mn = 0;
    double mbig = 1;
    for (size_t i = 0; i < d; i++) {
      dot += static_cast<f128>(km[i]) * want[i];
      mn += static_cast<i128>(m[i]) * x[i];
      mbig = std::max(mbig, std::fabs(static_cast<double>(m[i])));
    }
    f128 ktol = 400 * U * static_cast<double>(d * d) * b.anorm * b.inorm * mbig * std::max(1.0, big) * 6.3;
    VF_CHECK(fabsq_(dot - 2 * PIQ * static_cast<f128>(mn)) <= ktol, "reciprocal", "K%s.R%s=%.17g, expected 2pi*%lld", VS(m), VS(x), static_cast<double>(dot), static_cast<long long>(mn));
    // vectors and distances
    lvec diff(d);
    for (size_t i = 0; i < d; i++) diff[i] = y[i] - x[i];
    auto wv = ref_real(b, diff);
    auto v = br.GetVector(x, y);
    VF_CHECK(close(v, wv, tol), "vector", "GetVector(%s,%s)=%s, expected %s", VS(x), VS(y), VS(v), VSQ(wv));
    double dist = br.GetDistance(x, y);
    VF_CHECK(near(dist, lenq(wv), tol * static_cast<double>(d)), "distance", "GetDistance(%s,%s)=%.17g, expected %.17g", VS(x), VS(y), dist, static_cast<double>(lenq(wv)));
    auto pr = br.GetDistanceVector(x, y);
    VF_CHECK(pr.first == dist && pr.second == v, "distance_vector", "GetDistanceVector(%s,%s)=(%.17g,%s), not (%.17g,%s)", VS(x), VS(y), pr.first, VS(pr.second), dist, VS(v));
    // neighbours
    for (size_t k = 0; k < b.gamma; k++) {
      auto n = br.GetNeighbor(x, k);
      VF_CHECK(n.size() == d, "neighbour", "size");
      for (size_t i = 0; i < d; i++) {
        long step = b.dirs[(k / 2) * d + i] * (k % 2 == 0 ? 1 : -1);
        if (b.name == "triangular" || b.name[1] == 'h' || b.name[1] == 'q' || b.name == "cubic")
          continue; // the order of predefined directions is not prescribed
        VF_CHECK(n[i] - x[i] == step, "neighbour.custom", "neighbour %zu of %s is %s", k, VS(x), VS(n));
      }
      if (k % 2 == 1) {
        auto o = br.GetNeighbor(x, k - 1);
        for (size_t i = 0; i < d; i++)
          VF_CHECK(n[i] - x[i] == -(o[i] - x[i]), "neighbour.opposite", "neighbours %zu and %zu of %s are %s and %s", k - 1, k, VS(x), VS(o), VS(n));
      }
    }
    if (b.name.compare(0, 6, "custom") != 0) {
      // exactly the points at distance one, each once
      std::vector<lvec> want1, got;
      lvec o(d, -3);
      for (;;) {
        f128 len = lenq(ref_real(b, o));
        if (fabsq_(len - 1) < 1e-9) {
          lvec z(d);
          for (size_t i = 0; i < d; i++) z[i] = x[i] + o[i];
          want1.push_back(z);
        }
        size_t i = 0;
        while (i < d && ++o[i] > 3) o[i++] = -3;
        if (i == d) break;
      }
      for (size_t k = 0; k < br.GetGamma(); k++) got.push_back(br.GetNeighbor(x, k));
      std::sort(want1.begin(), want1.end());
      std::sort(got.begin(), got.end());
      VF_CHECK(got == want1, "neighbour.unit", "%s: neighbours of %s are not the points at distance one", b.name.c_str(), VS(x));
    }
  }
}
