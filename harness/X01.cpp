// Approximate comparisons are mutually consistent and honour tolerances.
#include "vf.hpp"
#include <bwsl/Approx.hpp>
using namespace vf;
using bwsl::Approx;

/// all twelve operators: the six with the number on either side
static void
consistent(double x, Approx const& a, double v, const char* what)
{
  bool e = x == a;
  VF_CHECK((a == x) == e, "swap", "%s: %.17g == Approx(%.17g) is %d, swapped %d", what, x, v, (int)e, (int)(a == x));
  VF_CHECK((x != a) == !e && (a != x) == !e, "not_equal", "%s: %.17g and Approx(%.17g): == is %d, != is %d and %d", what, x, v, (int)e, (int)(x != a), (int)(a != x));
  bool lt = x < v && !e, le = x < v || e, gt = x > v && !e, ge = x > v || e;
  VF_CHECK((x < a) == lt && (a > x) == lt, "less", "%s: %.17g < Approx(%.17g) (equal: %d) is %d, Approx > number is %d", what, x, v, (int)e, (int)(x < a), (int)(a > x));
  VF_CHECK((x <= a) == le && (a >= x) == le, "less_equal", "%s: %.17g <= Approx(%.17g) (equal: %d) is %d, Approx >= number is %d", what, x, v, (int)e, (int)(x <= a), (int)(a >= x));
  VF_CHECK((x > a) == gt && (a < x) == gt, "greater", "%s: %.17g > Approx(%.17g) (equal: %d) is %d, Approx < number is %d", what, x, v, (int)e, (int)(x > a), (int)(a < x));
  VF_CHECK((x >= a) == ge && (a <= x) == ge, "greater_equal", "%s: %.17g >= Approx(%.17g) (equal: %d) is %d, Approx <= number is %d", what, x, v, (int)e, (int)(x >= a), (int)(a <= x));
}
static void
judge(double x, Approx const& a, double v, double abs, double rel, const char* what)
{
  f128 d = fabsq_(static_cast<f128>(x) - v), ta = fabsq_(abs), tr = fabsq_(static_cast<f128>(rel) * v);
  f128 t = ta > tr ? ta : tr;
  bool e = x == a;
  // rounding of the difference and of the product leaves a band undecided
  f128 band = 4 * U * (d + t) + 1e-323;
  if (x == v)
    VF_CHECK(e, "identical", "%s: %.17g is not equal to Approx of itself (abs %g rel %g)", what, x, abs, rel);
  else if (d <= t - band && (d < 1.7e308)) {
    VF_CHECK(e, "within", "%s: %.17g differs by %.3g from Approx(%.17g) with tolerance %.3g (abs %g rel %g) and is not equal", what, x, (double)d, v, (double)t, abs, rel);
  } else if (d > t + band) {
    VF_CHECK(!e, "beyond", "%s: %.17g differs by %.3g from Approx(%.17g) with tolerance %.3g (abs %g rel %g) and is equal", what, x, (double)d, v, (double)t, abs, rel);
  } else
    VF_EV("undecided");
  consistent(x, a, v, what);
}
static double
value(Ctx& c)
{
  switch (c.below(8)) {
    case 0: return 0;
    case 1: return c.coin() ? 1e300 * (1 + c.unit()) : -1e300;
    case 2: return c.coin() ? 5e-324 : -2.2250738585072014e-308;
    case 3: return c.real(1, 300);
    default: return c.real();
  }
}
static double
tolerance(Ctx& c)
{
  double t;
  switch (c.below(7)) {
    case 0: t = 0; break;
    case 1: t = c.unit(); break;
    case 2: t = std::ldexp(1.0, -static_cast<int>(c.below(60))); break;
    case 3: t = 1; break;
    case 4: t = 10 * c.unit(); break;
    case 5: t = std::ldexp(1 + c.unit(), -static_cast<int>(c.below(300))); break;
    default: t = 1e-3; break;
  }
  return c.coin(1, 3) ? -t : t;
}

void
run_case(Ctx& c)
{
  double v = value(c), abs = 0, rel = 100 * std::numeric_limits<double>::epsilon();
  c.sigd(v);
  Approx a(v);
  const char* what = "default";
  int n = 1 + static_cast<int>(c.below(5));
  c.note("Approx(%.17g)", v);
  for (int k = 0; k < n; k++) {
    if (k > 0 || c.coin(3, 4)) {
      double t = tolerance(c);
      bool A = c.coin();
      // a tolerance in proportion to the value
      if (A && c.coin()) t *= std::fabs(v) < 1e200 ? std::fabs(v) : 1;
      c.sigd(t);
      Approx& r = A ? a.SetAbs(t) : a.SetRel(t);
      VF_CHECK(&r == &a, "chain", "setting a tolerance returns another object");
      (A ? abs : rel) = std::fabs(t);
      what = A ? "SetAbs" : "SetRel";
      c.note(" %s(%g)", what, t);
      VF_EV(what);
    } else
      VF_EV("defaults");
    f128 ta = abs, tr = fabsq_(static_cast<f128>(rel) * v), t = ta > tr ? ta : tr;
    int m = 1 + static_cast<int>(c.below(10));
    for (int i = 0; i < m; i++) {
      double x;
      f128 T = t;
      switch (c.below(8)) {
        case 0: x = v; break;
        case 1: x = std::nextafter(v, c.coin() ? 1e308 : -1e308); break;
        case 2: x = value(c); break;
        case 3: x = -v; break;
        case 4: T = t * c.unit(); goto shift;
        case 5: T = t * (1 + c.unit()); goto shift;
        case 6: T = t * (c.coin() ? static_cast<f128>(0.999999) : static_cast<f128>(1.000001)); goto shift;
        default: T = c.coin() ? ta * static_cast<f128>(0.99) : tr * static_cast<f128>(0.99);
        shift:
          x = static_cast<double>(static_cast<f128>(v) + (c.coin() ? T : -T));
      }
      if (!std::isfinite(x) || std::fabs(x) > 1.5e308) continue;
      c.sigd(x);
      judge(x, a, v, abs, rel, what);
      Approx b(a); // a copy compares alike
      VF_CHECK((x == b) == (x == a) && (b < x) == (a < x) && (b > x) == (a > x), "copy", "a copy compares differently");
      if (x != v) c.nontrivial = true;
    }
  }
}
