// Scalar math utilities compute their mathematical definition.
#include "vf.hpp"
#include <bwsl/MathUtils.hpp>
using namespace vf;

template<class T>
static bool
fits(i128 v)
{
  return v >= static_cast<i128>(std::numeric_limits<T>::min()) && v <= static_cast<i128>(std::numeric_limits<T>::max());
}
template<class T>
static T
number(Ctx& c)
{
  T v;
  int bits = static_cast<int>(8 * sizeof(T)) - (std::is_signed<T>::value ? 1 : 0);
  switch (c.below(6)) {
    case 0: v = static_cast<T>(c.in(std::is_signed<T>::value ? -9 : 0, 9)); break;
    case 1: v = std::numeric_limits<T>::max(); break;
    case 2: v = std::numeric_limits<T>::min(); break;
    case 3: v = static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(c.below(5))); break;
    case 4: {
      u64 m = c.bits64() >> (64 - 1 - c.below(static_cast<u64>(bits)));
      v = static_cast<T>(m & static_cast<u64>(std::numeric_limits<T>::max()));
      if (std::is_signed<T>::value && c.coin()) v = static_cast<T>(-static_cast<i128>(v));
      break;
    }
    default: v = static_cast<T>(c.bits64()); break;
  }
  c.sig(static_cast<u64>(v));
  return v;
}

template<class T>
static void
integer(Ctx& c, const char* tn)
{
  T a = number<T>(c), b = number<T>(c);
  if (c.coin(1, 8)) b = a;
  i128 A = a, B = b;
  auto L = [](i128 v) { return (long long)v; };
  // products are computed after integer promotion
  using W = typename std::conditional<sizeof(T) < sizeof(int), int, T>::type;
  for (i128 s : { A, B, static_cast<i128>(c.in(-1000, 1000)) }) {
    if (!fits<T>(s)) continue;
    T x = static_cast<T>(s);
    bool prod2 = s > -(1LL << 62) && s < (i128(1) << 62) && fits<T>(s * s) && fits<W>(s * s);
    if (prod2) VF_CHECK(static_cast<i128>(bwsl::square(x)) == s * s, "square", "square(%s %lld) is %lld", tn, L(s), L(bwsl::square(x)));
    i128 as = s < 0 ? -s : s;
    if (as < 3000000 && fits<T>(s * s * s) && fits<W>(s * s * s) && fits<W>(s * s)) VF_CHECK(static_cast<i128>(bwsl::cube(x)) == s * s * s, "cube", "cube(%s %lld) is %lld", tn, L(s), L(bwsl::cube(x)));
    VF_CHECK(bwsl::sgn(x) == (s > 0) - (s < 0), "sgn", "sgn(%s %lld) is %d", tn, L(s), bwsl::sgn(x));
  }
  i128 d = A > B ? A - B : B - A;
  if (fits<T>(d)) VF_CHECK(static_cast<i128>(bwsl::absdiff(a, b)) == d, "absdiff", "absdiff(%s %lld, %lld) is %lld", tn, L(A), L(B), L(bwsl::absdiff(a, b)));
  // greatest common divisor, with a divisor of interesting size
  i128 lim = std::numeric_limits<T>::max();
  if constexpr (sizeof(T) >= sizeof(int))
  if (A >= -lim && B >= -lim) {
    i128 x = A < 0 ? -A : A, y = B < 0 ? -B : B;
    while (y) {
      i128 t = x % y;
      x = y;
      y = t;
    }
    T g = bwsl::get_gcd(a, b);
    VF_CHECK(static_cast<i128>(g) == x, "gcd", "get_gcd(%s %lld, %lld) is %lld, should be %lld", tn, L(A), L(B), L(g), L(x));
    if (x > 1) VF_EV("gcd.common");
    T p = static_cast<T>(c.in(std::is_signed<T>::value ? -12 : 0, 12)), q = static_cast<T>(c.in(0, 12)), m = static_cast<T>(c.in(std::is_signed<T>::value ? -8 : 0, 8));
    i128 u = static_cast<i128>(p) * m, v = static_cast<i128>(q) * m;
    if (fits<T>(u) && fits<T>(v)) {
      i128 e = u < 0 ? -u : u, f = v < 0 ? -v : v;
      while (f) {
        i128 t = e % f;
        e = f;
        f = t;
      }
      VF_CHECK(static_cast<i128>(bwsl::get_gcd(static_cast<T>(u), static_cast<T>(v))) == e, "gcd", "get_gcd(%s %lld, %lld) is %lld, should be %lld", tn, L(u), L(v), L(bwsl::get_gcd(static_cast<T>(u), static_cast<T>(v))), L(e));
    }
  }
}
template<class T, class R>
static void
signeddifference(Ctx& c, const char* tn)
{
  T a = number<T>(c), b = number<T>(c);
  if (c.coin(1, 4)) { // at the limits of the result
    i128 e = c.coin() ? std::numeric_limits<R>::min() : std::numeric_limits<R>::max();
    e += c.in(-1, 1);
    if (e < 0 && fits<T>(-e)) a = 0, b = static_cast<T>(-e);
    if (e > 0 && fits<T>(e)) b = 0, a = static_cast<T>(e);
  }
  i128 d = static_cast<i128>(a) - static_cast<i128>(b);
  if (!fits<R>(d)) return;
  if (d == std::numeric_limits<R>::min()) VF_EV("signeddiff.lowest");
  R r = bwsl::signeddiff<T, R>(a, b);
  VF_CHECK(static_cast<i128>(r) == d, "signeddiff", "signeddiff(%s %llu, %llu) is %lld", tn, (unsigned long long)a, (unsigned long long)b, (long long)r);
}
template<class T>
static void
binomial(Ctx& c, const char* tn)
{
  T n = static_cast<T>(c.below(c.coin() ? 12 : c.coin() ? 70 : 100000)), k = static_cast<T>(c.below(c.coin() ? static_cast<u64>(n) + 3 : 6));
  if (c.coin(1, 6)) { // the largest arguments
    n = static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(c.below(c.coin() ? 3 : 100000)));
    k = static_cast<T>(c.below(4));
    if (c.coin()) k = static_cast<T>(n - k);
  }
  c.sig(static_cast<u64>(n));
  c.sig(static_cast<u64>(k));
  unsigned __int128 e = 1;
  bool large = false;
  if (k > n)
    e = 0;
  else {
    T kk = k > n - k ? static_cast<T>(n - k) : k;
    for (u64 i = 1; i <= kk; i++) {
      e *= static_cast<u64>(n) - i + 1;
      large |= e > static_cast<u64>(std::numeric_limits<T>::max());
      e /= i;
      if (e > static_cast<u64>(std::numeric_limits<T>::max())) return; // no smaller factor brings it back
    }
  }
  if (large) VF_EV("binomial.near_limit");
  double r = bwsl::cbinomial(n, k);
  VF_CHECK(r == static_cast<double>(e), "binomial", "%s: %lld choose %lld is %.17g, should be %lld", tn, (long long)n, (long long)k, r, (long long)e);
  if (e > 1) VF_EV("binomial.large");
  if (k > n) VF_EV("binomial.zero");
}
template<class F>
static void
floating(Ctx& c, const char* tn)
{
  const F inf = std::numeric_limits<F>::infinity(), mx = std::numeric_limits<F>::max(), den = std::numeric_limits<F>::denorm_min(), mn = std::numeric_limits<F>::min();
  const F edge[] = { F(0), -F(0), F(1), F(-1), mx, -mx, den, -den, mn, -mn };
  auto num = [&]() -> F {
    F v = c.coin(1, 3) ? c.pick(edge) : static_cast<F>(c.real());
    c.sigd(static_cast<double>(v));
    return v;
  };
  F u = std::numeric_limits<F>::epsilon() / 2;
  F x = num();
  VF_CHECK(bwsl::heaviside(x) == (x >= 0 ? F(1) : F(0)), "heaviside", "%s: heaviside(%.17g) is %.17g", tn, (double)x, (double)bwsl::heaviside(x));
  VF_CHECK(bwsl::heaviside2(x) == (x > 0 ? F(1) : x == 0 ? F(0.5) : F(0)), "heaviside2", "%s: heaviside2(%.17g) is %.17g", tn, (double)x, (double)bwsl::heaviside2(x));
  VF_CHECK(bwsl::heaviside(inf) == 1 && bwsl::heaviside(-inf) == 0 && bwsl::heaviside2(inf) == 1 && bwsl::heaviside2(-inf) == 0, "heaviside.infinite", "%s: the steps of infinity", tn);
  VF_CHECK(bwsl::sgn(x) == (x > 0) - (x < 0), "sgn", "sgn(%s %.17g) is %d", tn, (double)x, bwsl::sgn(x));
  f128 sq = static_cast<f128>(x) * x, cu = sq * x;
  if (sq <= static_cast<f128>(mx) && (sq == 0 || sq >= static_cast<f128>(mn))) VF_CHECK(fabsq_(static_cast<f128>(bwsl::square(x)) - sq) <= u * sq, "square", "square(%s %.17g) is %.17g", tn, (double)x, (double)bwsl::square(x));
  if (fabsq_(cu) <= static_cast<f128>(mx) / 2 && (cu == 0 || (fabsq_(cu) >= static_cast<f128>(mn) && sq >= static_cast<f128>(mn)))) VF_CHECK(fabsq_(static_cast<f128>(bwsl::cube(x)) - cu) <= 3 * u * fabsq_(cu), "cube", "cube(%s %.17g) is %.17g", tn, (double)x, (double)bwsl::cube(x));
  F y = num();
  f128 d = fabsq_(static_cast<f128>(x) - y);
  if (d <= static_cast<f128>(mx)) VF_CHECK(fabsq_(static_cast<f128>(bwsl::absdiff(x, y)) - d) <= u * d, "absdiff", "absdiff(%s %.17g, %.17g) is %.17g", tn, (double)x, (double)y, (double)bwsl::absdiff(x, y));
  // interpolation
  F a = static_cast<F>(c.real()), b = static_cast<F>(c.real()), t = c.coin() ? static_cast<F>(c.unit()) : static_cast<F>(c.real(1, 10));
  if (c.coin(1, 10)) b = a;
  VF_CHECK(bwsl::lerp(a, b, F(0)) == a && bwsl::lerp(a, b, F(1)) == b, "lerp.ends", "%s: lerp(%.17g, %.17g) has the ends %.17g, %.17g", tn, (double)a, (double)b, (double)bwsl::lerp(a, b, F(0)), (double)bwsl::lerp(a, b, F(1)));
  auto affine = [&](f128 T, F got, const char* what) {
    f128 e = static_cast<f128>(a) + (static_cast<f128>(b) - a) * T;
    f128 tol = 8 * u * (fabsq_(1 - T) * fabsq_(a) + fabsq_(T) * (fabsq_(a) + fabsq_(b)) + fabsq_(a)) + static_cast<f128>(mn);
    VF_CHECK(fabsq_(static_cast<f128>(got) - e) <= tol, "lerp.affine", "%s: %s(%.17g, %.17g, t=%.17g) is %.17g, should be %.17g", tn, what, (double)a, (double)b, (double)T, (double)got, (double)e);
  };
  affine(t, bwsl::lerp(a, b, t), "lerp");
  long j = static_cast<long>(c.in(1, 1000)), i = static_cast<long>(c.in(-500, 1500));
  if (c.coin(1, 4)) j = -j;
  VF_CHECK(bwsl::lerpi(0L, j, a, b) == a && bwsl::lerpi(j, j, a, b) == b, "lerpi.ends", "%s: lerpi over %ld of %.17g, %.17g has the ends %.17g, %.17g", tn, j, (double)a, (double)b, (double)bwsl::lerpi(0L, j, a, b), (double)bwsl::lerpi(j, j, a, b));
  affine(static_cast<f128>(i) / static_cast<f128>(j), bwsl::lerpi(i, j, a, b), "lerpi");
  int i32 = static_cast<int>(i), j32 = static_cast<int>(j);
  affine(static_cast<f128>(i) / static_cast<f128>(j), bwsl::lerpi(i32, j32, a, b), "lerpi(int)");
  unsigned iu = static_cast<unsigned>(std::labs(i)), ju = static_cast<unsigned>(std::labs(j));
  affine(static_cast<f128>(iu) / static_cast<f128>(ju), bwsl::lerpi(iu, ju, a, b), "lerpi(unsigned)");
}

void
run_case(Ctx& c)
{
  c.nontrivial = true;
  switch (c.below(4)) {
    case 0:
      switch (c.below(6)) {
        case 0: integer<int>(c, "int"); break;
        case 1: integer<long>(c, "long"); break;
        case 2: integer<short>(c, "short"); break;
        case 3: integer<unsigned>(c, "unsigned"); break;
        case 4: integer<unsigned long>(c, "unsigned long"); break;
        default: integer<signed char>(c, "signed char"); break;
      }
      break;
    case 1:
      switch (c.below(5)) {
        case 0: signeddifference<unsigned long, long>(c, "unsigned long"); break;
        case 1: signeddifference<unsigned, int>(c, "unsigned"); break;
        case 2: signeddifference<unsigned, long>(c, "unsigned"); break;
        case 3: signeddifference<unsigned short, short>(c, "unsigned short"); break;
        default: signeddifference<unsigned long, int>(c, "unsigned long"); break;
      }
      break;
    case 2:
      switch (c.below(4)) {
        case 0: binomial<long>(c, "long"); break;
        case 1: binomial<int>(c, "int"); break;
        case 2: binomial<unsigned>(c, "unsigned"); break;
        default: binomial<unsigned long>(c, "unsigned long"); break;
      }
      break;
    default:
      if (c.coin()) floating<double>(c, "double");
      else floating<float>(c, "float");
      break;
  }
}
