// The structure factor is the normalised power spectrum of the occupations.
#include "vf_lattice.hpp"
using namespace vf;

static rvec
ref_sk(sizes_t const& s, rvec const& occ, double mult)
{
  size_t n = occ.size();
  rvec r(n);
  std::vector<lvec> x(n);
  for (size_t j = 0; j < n; j++) x[j] = ref_coords(j, s);
  for (size_t i = 0; i < n; i++) {
    double re = 0, im = 0;
    for (size_t j = 0; j < n; j++) {
      double turns = 0;
      for (size_t m = 0; m < s.size(); m++) {
        i128 q = static_cast<i128>(x[i][m] - static_cast<long>(s[m] / 2)) * x[j][m];
        turns += static_cast<double>(pmod(q, s[m])) / static_cast<double>(s[m]);
      }
      turns -= std::floor(turns);
      re += occ[j] * std::cos(2 * M_PI * turns);
      im += occ[j] * std::sin(2 * M_PI * turns);
    }
    r[i] = mult * (re * re + im * im) / (static_cast<double>(n) * static_cast<double>(n));
  }
  return r;
}

template<class T>
static void
go(Ctx& c, Bra const& b, sizes_t const& s, bool closed)
{
  u64 n = product(s);
  Lattice l(b.br, s, closed ? B::Closed : B::Open);
  double cond = b.anorm * b.inorm;
  int snaps = 1 + static_cast<int>(c.below(4));
  rvec total(n, 0), refsum(n, 0);
  double scale = 0;
  bool pre = c.coin();
  if (pre)
    for (auto& v : total) v = c.real();
  double pres = 0;
  for (double v : total) pres = std::max(pres, std::fabs(v));
  auto before = total;
  for (int k = 0; k < snaps; k++) {
    std::vector<T> occ(n);
    int style = static_cast<int>(c.below(5));
    for (u64 j = 0; j < n; j++) {
      double v;
      switch (style) {
        case 0: v = static_cast<double>(c.below(3)); break;
        case 1: v = static_cast<double>(c.below(2)); break;
        case 2: v = std::is_floating_point<T>::value ? c.unit() * 2 - 1 : static_cast<double>(c.below(5)); break;
        case 3: v = j == c.idx % n ? 1 : 0; break;
        default: v = 1; break;
      }
      if (style == 2 && std::is_signed<T>::value && c.coin(1, 3)) v = -v;
      occ[j] = static_cast<T>(v);
    }
    rvec od;
    double s2 = 0, s1 = 0;
    for (auto v : occ) {
      od.push_back(static_cast<double>(v));
      s2 += od.back() * od.back();
      s1 += std::fabs(od.back());
      c.sigd(od.back());
    }
    double mult = c.coin() ? 1.0 : c.coin() ? static_cast<double>(c.in(1, 9)) : c.real();
    double tol = 1e-12 * cond * static_cast<double>(n + 40) * std::fabs(mult) * s1 * s1 / static_cast<double>(n * n) + 1e-300;
    auto occ0 = occ;
    auto sk = mult == 1.0 && c.coin() ? l.ComputeSk(occ) : l.ComputeSk(occ, mult);
    VF_CHECK(occ == occ0, "pure", "the occupations were modified");
    VF_CHECK(sk.size() == n, "size", "structure factor of %zu entries for %llu sites", sk.size(), (unsigned long long)n);
    if (!closed) {
      for (double v : sk) VF_CHECK(v == 0.0, "open.zero", "open structure factor has entry %.17g", v);
    } else {
      auto ref = ref_sk(s, od, mult);
      double sum = 0;
      for (u64 i = 0; i < n; i++) {
        VF_CHECK(std::fabs(sk[i] - ref[i]) <= tol, "spectrum", "S(%llu)=%.17g, expected %.17g, occupations %s mult %.17g", (unsigned long long)i, sk[i], ref[i], VS(od), mult);
        if (mult > 0) VF_CHECK(sk[i] >= 0, "non_negative", "S(%llu)=%.17g", (unsigned long long)i, sk[i]);
        sum += sk[i];
        refsum[i] += sk[i];
      }
      double want = mult * s2 / static_cast<double>(n);
      VF_CHECK(std::fabs(sum - want) <= tol * static_cast<double>(n) + 1e-12 * std::fabs(want), "sum_rule", "sum of S is %.17g, expected %.17g", sum, want);
      // translate the occupations around the lattice
      std::vector<T> moved(n);
      lvec t(b.dim);
      for (size_t m = 0; m < b.dim; m++) t[m] = static_cast<long>(c.below(s[m]));
      for (u64 j = 0; j < n; j++) {
        auto x = ref_coords(j, s);
        for (size_t m = 0; m < b.dim; m++) x[m] = pmod(x[m] + t[m], s[m]);
        moved[ref_index(x, s)] = occ[j];
      }
      auto sk2 = l.ComputeSk(moved, mult);
      for (u64 i = 0; i < n; i++)
        VF_CHECK(std::fabs(sk2[i] - sk[i]) <= 2 * tol, "translation", "S(%llu) changes from %.17g to %.17g when moved by %s", (unsigned long long)i, sk[i], sk2[i], VS(t));
    }
    if (mult == 1.0 && c.coin())
      l.AccumulateSk(occ, total);
    else
      l.AccumulateSk(occ, total, mult);
    scale += tol;
  }
  VF_CHECK(total.size() == n, "accumulate.size", "size");
  for (u64 i = 0; i < n; i++) {
    if (closed)
      VF_CHECK(std::fabs(total[i] - before[i] - refsum[i]) <= scale + 1e-14 * (pres + std::fabs(refsum[i])), "accumulate", "entry %llu: %.17g + %.17g became %.17g", (unsigned long long)i, before[i], refsum[i], total[i]);
    else
      VF_CHECK(total[i] == before[i], "open.unchanged", "entry %llu of an open lattice changed", (unsigned long long)i);
  }
  c.note("%d snapshots ", snaps);
}

void
run_case(Ctx& c)
{
  Bra b = random_bra(c);
  bool closed = c.coin(5, 6);
  auto s = lattice_sizes(c, b, c.coin(1, 10) ? 64 : 24);
  if (!VF_SAN && !c.fuzzing() && c.coin(1, 400)) s = large_lattice(c, b, 260, 500);
  sig_bra(c, b);
  sig_sizes(c, s, closed ? B::Closed : B::Open);
  c.nontrivial = product(s) > 1 && closed;
  switch (c.below(5)) {
    case 0: go<int>(c, b, s, closed); break;
    case 1: go<double>(c, b, s, closed); break;
    case 2: go<long>(c, b, s, closed); break;
    case 3: go<unsigned>(c, b, s, closed); break;
    default: go<float>(c, b, s, closed); break;
  }
}
