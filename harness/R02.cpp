// Rational comparisons order by exact value.
#include "vf.hpp"
#include <algorithm>
#include <bwsl/RationalNum.hpp>
using namespace vf;

static i128
gcd(i128 a, i128 b)
{
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) {
    i128 t = a % b;
    a = b;
    b = t;
  }
  return a;
}
template<class T>
static bool
fits(i128 v)
{
  return v <= std::numeric_limits<T>::max() && v >= -static_cast<i128>(std::numeric_limits<T>::max());
}
struct Q
{
  i128 n, d;
};
static Q
canon(i128 n, i128 d)
{
  i128 g = gcd(n, d);
  if (d < 0) g = -g;
  return { n / g, d / g };
}

/// all six operators against the sign of the exact difference
template<class A, class B>
static void
six(A const& a, B const& b, int s, const char* kind, std::string const& what)
{
  VF_EV(kind);
  bool r[] = { a == b, a != b, a < b, a <= b, a > b, a >= b };
  bool e[] = { s == 0, s != 0, s < 0, s <= 0, s > 0, s >= 0 };
  const char* op[] = { "==", "!=", "<", "<=", ">", ">=" };
  for (int i = 0; i < 6; i++)
    if (r[i] != e[i]) fail(kind, "%s: operator %s is %d", what.c_str(), op[i], (int)r[i]);
}

template<class T>
struct Run
{
  using Rat = bwsl::RationalNum<T>;
  static T number(Ctx& c, bool nonzero)
  {
    T v;
    do {
      switch (c.below(4)) {
        case 0: v = static_cast<T>(c.in(-8, 8)); break;
        case 1: v = static_cast<T>(c.in(-1000, 1000)); break;
        case 2: v = static_cast<T>(c.spread(static_cast<int>(4 * sizeof(T)) - 1)); break;
        default: v = static_cast<T>(c.spread(static_cast<int>(8 * sizeof(T)) - 1)); break;
      }
      if (c.fuzzing() && nonzero && v == 0) v = 1;
    } while (nonzero && v == 0);
    return v;
  }
  void run(Ctx& c)
  {
    T a = number(c, false), b = number(c, true), x, y, k;
    Q P = canon(a, b);
    // values that are equal or nearly equal to the first are interesting
    switch (c.below(4)) {
      case 0: x = number(c, false), y = number(c, true); break;
      case 1: { // the same value written differently
        T m = static_cast<T>(c.in(1, 9)) * (c.coin() ? 1 : -1);
        if (!fits<T>(P.n * m) || !fits<T>(P.d * m)) m = -1;
        x = static_cast<T>(P.n * m), y = static_cast<T>(P.d * m);
        VF_EV("same_value");
        break;
      }
      case 2: { // a neighbour
        i128 n = P.n + c.in(-1, 1), d = P.d + c.in(0, 1);
        if (!fits<T>(n)) n = P.n;
        if (!fits<T>(d)) d = P.d;
        x = static_cast<T>(n), y = static_cast<T>(d);
        break;
      }
      default: x = static_cast<T>(-P.n), y = static_cast<T>(P.d); break;
    }
    // an integer around the value
    i128 fl = P.n / P.d + c.in(-1, 1);
    k = c.coin() || !fits<T>(fl) ? number(c, false) : static_cast<T>(fl);
    Q R = canon(x, y);
    c.sig(static_cast<u64>(a));
    c.sig(static_cast<u64>(b));
    c.sig(static_cast<u64>(x));
    c.sig(static_cast<u64>(y));
    c.sig(static_cast<u64>(k));
    c.nontrivial = true;
    std::string A = std::to_string(a) + "//" + std::to_string(b), B = std::to_string(x) + "//" + std::to_string(y), K = std::to_string(k);
    c.note("%s %s %s", A.c_str(), B.c_str(), K.c_str());
    Rat p(a, b), q(x, y);
    i128 c1 = P.n * R.d, c2 = R.n * P.d;
    if (fits<T>(c1) && fits<T>(c2)) {
      int s = c1 < c2 ? -1 : c1 > c2;
      six(p, q, s, "rational", A + " with " + B);
      six(q, p, -s, "rational", B + " with " + A);
      if (s == 0) VF_EV("equal");
    }
    if (fits<T>(P.n * P.d)) six(p, p, 0, "itself", A + " with itself");
    i128 kd = static_cast<i128>(k) * P.d;
    if (fits<T>(kd)) {
      int s = P.n < kd ? -1 : P.n > kd;
      six(p, k, s, "integer_right", A + " with " + K);
      six(k, p, -s, "integer_left", K + " with " + A);
      if (P.d != 1) VF_EV("non_integer_with_integer");
      if (s == 0) VF_EV("equal_integer");
    }
  }
  /// comparisons drive a sort
  void sorted(Ctx& c)
  {
    int n = static_cast<int>(c.below(30));
    std::vector<Rat> v;
    for (int i = 0; i < n; i++) {
      T y = static_cast<T>(c.in(-30, 30));
      v.emplace_back(static_cast<T>(c.in(-60, 60)), y == 0 ? static_cast<T>(7) : y);
      c.sig(static_cast<u64>(v.back().GetNum() * 64 + v.back().GetDen()));
    }
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); i++)
      VF_CHECK(static_cast<i128>(v[i - 1].GetNum()) * v[i].GetDen() <= static_cast<i128>(v[i].GetNum()) * v[i - 1].GetDen(), "sorted", "%ld//%ld is sorted before %ld//%ld", (long)v[i - 1].GetNum(), (long)v[i - 1].GetDen(), (long)v[i].GetNum(), (long)v[i].GetDen());
    if (n > 1) c.nontrivial = true;
  }
};

void
run_case(Ctx& c)
{
  bool srt = c.coin(1, 10);
  if (c.coin()) {
    Run<long> r;
    srt ? r.sorted(c) : r.run(c);
  } else {
    Run<int> r;
    srt ? r.sorted(c) : r.run(c);
  }
}
