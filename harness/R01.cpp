// Rational arithmetic is exact and canonical.
#include "vf.hpp"
#include <bwsl/RationalNum.hpp>
using namespace vf;

static i128
gcd(i128 a, i128 b)
{
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) {
    i128 t = a % b;
    a = b;
    b = t;
  }
  return a;
}
struct Q
{
  i128 n, d;
};
static Q
canon(i128 n, i128 d)
{
  i128 g = gcd(n, d);
  if (d < 0) g = -g;
  return { n / g, d / g };
}
template<class T>
static bool
fits(i128 v)
{
  return v <= std::numeric_limits<T>::max() && v >= -static_cast<i128>(std::numeric_limits<T>::max());
}

template<class T>
struct Run
{
  using Rat = bwsl::RationalNum<T>;
  const char* tn = sizeof(T) == 4 ? "int" : sizeof(T) == 2 ? "short" : "long";

  static T number(Ctx& c, bool nonzero)
  {
    T v;
    do {
      switch (c.below(4)) {
        case 0: v = static_cast<T>(c.in(-12, 12)); break;
        case 1: v = static_cast<T>(c.in(-1000, 1000)); break;
        case 2: v = static_cast<T>(c.spread(static_cast<int>(4 * sizeof(T)) - 1)); break;
        default: v = static_cast<T>(c.spread(static_cast<int>(8 * sizeof(T)) - 1)); break;
      }
      if (c.fuzzing() && nonzero && v == 0) v = 1;
    } while (nonzero && v == 0);
    return v;
  }
  void is(Rat r, Q e, const char* what, long a, long b, long x, long y)
  {
    VF_CHECK(r.GetDen() > 0 && gcd(r.GetNum(), r.GetDen()) == 1, "canonical", "%s: %s of %ld//%ld and %ld//%ld is %ld//%ld, not in lowest terms", tn, what, a, b, x, y, (long)r.GetNum(), (long)r.GetDen());
    VF_CHECK(r.GetNum() == e.n && r.GetDen() == e.d, "exact", "%s: %s of %ld//%ld and %ld//%ld is %ld//%ld, exactly %lld//%lld", tn, what, a, b, x, y, (long)r.GetNum(), (long)r.GetDen(), (long long)e.n, (long long)e.d);
    conversions(r);
  }
  void conversions(Rat r)
  {
    i128 n = r.GetNum(), d = r.GetDen();
    f128 q = static_cast<f128>(n) / static_cast<f128>(d);
    VF_CHECK(near(static_cast<double>(r), q, 4 * U * fabsq_(q)), "to_double", "%lld//%lld becomes %.17g", (long long)n, (long long)d, static_cast<double>(r));
    VF_CHECK(static_cast<T>(r) == static_cast<T>(n / d), "to_integer", "%lld//%lld becomes the integer %ld", (long long)n, (long long)d, (long)static_cast<T>(r));
    VF_CHECK(r.IsInt() == (d == 1), "is_int", "IsInt of %lld//%lld is %d", (long long)n, (long long)d, (int)r.IsInt());
    if (r.IsInt()) VF_EV("integers");
  }
  void run(Ctx& c)
  {
    if (c.coin(1, 50)) {
      Rat z;
      VF_CHECK(z.GetNum() == 0 && z.GetDen() == 1, "default", "the default is %ld//%ld", (long)z.GetNum(), (long)z.GetDen());
      conversions(z);
    }
    T a = number(c, false), b = number(c, true), x = number(c, false), y = number(c, true), k = number(c, false);
    c.sig(static_cast<u64>(a));
    c.sig(static_cast<u64>(b));
    c.sig(static_cast<u64>(x));
    c.sig(static_cast<u64>(y));
    c.note("%s %ld//%ld %ld//%ld %ld", tn, (long)a, (long)b, (long)x, (long)y, (long)k);
    c.nontrivial = true;
    Rat p(a, b), q(x, y);
    Q P = canon(a, b), R = canon(x, y);
    is(p, P, "construction", a, b, x, y);
    is(q, R, "construction", x, y, a, b);
    if (b < 0) VF_EV("negative_denominator");
    if (a == 0) VF_EV("zero");
    // as the classical formulas need it: the cross products fit the type
    i128 cross1 = P.n * R.d, cross2 = R.n * P.d, den = P.d * R.d, num = P.n * R.n;
    if (fits<T>(cross1) && fits<T>(cross2) && fits<T>(den)) {
      if (fits<T>(cross1 + cross2)) is(p + q, canon(cross1 + cross2, den), "sum", a, b, x, y);
      if (fits<T>(cross1 - cross2)) is(p - q, canon(cross1 - cross2, den), "difference", a, b, x, y);
    }
    if (fits<T>(num) && fits<T>(den)) is(p * q, canon(num, den), "product", a, b, x, y);
    if (R.n != 0 && fits<T>(cross1) && fits<T>(cross2)) {
      is(p / q, canon(cross1, cross2), "quotient", a, b, x, y);
      if (R.n < 0) VF_EV("negative_divisor");
    }
    i128 K = k, Kd = K * P.d, Kn = K * P.n;
    if (fits<T>(Kd)) {
      if (fits<T>(P.n + Kd)) {
        is(p + k, canon(P.n + Kd, P.d), "sum with integer", a, b, k, 1);
        is(k + p, canon(P.n + Kd, P.d), "integer sum", a, b, k, 1);
      }
      if (fits<T>(P.n - Kd)) {
        is(p - k, canon(P.n - Kd, P.d), "difference with integer", a, b, k, 1);
        is(k - p, canon(Kd - P.n, P.d), "integer difference", a, b, k, 1);
      }
      if (k != 0) is(p / k, canon(P.n, Kd), "quotient by integer", a, b, k, 1);
      if (P.n != 0) is(k / p, canon(Kd, P.n), "integer quotient", a, b, k, 1);
    }
    if (fits<T>(Kn)) {
      is(p * k, canon(Kn, P.d), "product with integer", a, b, k, 1);
      is(k * p, canon(Kn, P.d), "integer product", a, b, k, 1);
    }
    VF_CHECK(p.GetNum() == P.n && p.GetDen() == P.d && q.GetNum() == R.n && q.GetDen() == R.d, "operands", "an operation changes its operands");
    Rat s(p);
    s.Simplify();
    is(s, P, "simplification", a, b, 0, 1);
  }
  /// a history of operations on one value
  void chain(Ctx& c)
  {
    Q e{ 0, 1 };
    Rat r;
    int n = 1 + static_cast<int>(c.below(20));
    for (int i = 0; i < n; i++) {
      T x = static_cast<T>(c.in(-9, 9)), y = static_cast<T>(c.in(-9, 9));
      if (y == 0) y = 1;
      c.sig(static_cast<u64>(x * 31 + y));
      Q o = canon(x, y);
      Rat q(x, y);
      i128 c1 = e.n * o.d, c2 = o.n * e.d, d = e.d * o.d;
      Q was = e;
      if (!fits<T>(c1) || !fits<T>(c2) || !fits<T>(d) || !fits<T>(c1 + c2) || !fits<T>(c1 - c2) || !fits<T>(e.n * o.n)) {
        r = q;
        e = o;
        continue;
      }
      switch (c.below(4)) {
        case 0:
          r = r + q;
          e = canon(c1 + c2, d);
          break;
        case 1:
          r = q - r;
          e = canon(c2 - c1, d);
          break;
        case 2:
          r = r * q;
          e = canon(e.n * o.n, d);
          break;
        default:
          if (o.n == 0) break;
          r = r / q;
          e = canon(c1, c2);
      }
      VF_EV("chained");
      is(r, e, "chained operation", static_cast<long>(was.n), static_cast<long>(was.d), x, y);
    }
    if (n > 1) c.nontrivial = true;
  }
};

void
run_case(Ctx& c)
{
  bool chain = c.coin(1, 6);
  if (c.coin()) {
    Run<long> r;
    chain ? r.chain(c) : r.run(c);
  } else {
    Run<int> r;
    chain ? r.chain(c) : r.run(c);
  }
}
