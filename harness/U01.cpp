// Interpolated search finds the standard upper bound.
#include "vf.hpp"
#include <algorithm>
#include <bwsl/MathUtils.hpp>
#include <deque>
#include <list>
using namespace vf;

template<class T>
static T
cast(double x)
{
  if constexpr (std::is_floating_point<T>::value)
    return static_cast<T>(x);
  else {
    double lo = static_cast<double>(std::numeric_limits<T>::min()), hi = static_cast<double>(std::numeric_limits<T>::max());
    if (x <= lo) return std::numeric_limits<T>::min();
    if (x >= hi) return std::numeric_limits<T>::max();
    return static_cast<T>(x);
  }
}

template<class T>
static std::vector<T>
values(Ctx& c, size_t n, int& style)
{
  std::vector<T> v(n);
  style = static_cast<int>(c.below(13));
  double s = std::is_floating_point<T>::value ? std::ldexp(1.0, static_cast<int>(c.in(-20, 20))) : 1.0;
  double off = c.coin() ? 0 : c.real() * 1000;
  u64 runs = 1 + c.below(20);
  for (size_t i = 0; i < n; i++) {
    double x = static_cast<double>(i);
    switch (style) {
      case 0: x = x * s + off; break;                                          // evenly spaced
      case 1: x = c.unit() * 1e6 * s + off; break;                             // uniform
      case 2: x = std::floor(c.unit() * 50) + off; break;                      // long runs of equal elements
      case 3: x = 7; break;                                                    // all equal
      case 4: x = std::exp2(static_cast<double>(i) * 60.0 / static_cast<double>(n)); break; // exponential
      case 5: x = x * x * x; break;
      case 6: x = i + 1 == n ? 1e15 : c.unit() * 10; break;                    // an outlier at the end
      case 7: x = i == 0 ? -1e15 : c.unit() * 10; break;                       // and at the beginning
      case 8: x = std::floor(static_cast<double>(i) * static_cast<double>(runs) / static_cast<double>(n)); break; // steps
      case 9: x = i < n / 2 ? 0 : 1; break;
      case 10: x = c.real(1, 60); break;
      case 11: x = i < n - n / 10 ? c.unit() : 1e9 + c.unit() * 1e9; break;    // two clusters
      default: x = std::is_floating_point<T>::value ? (c.unit() - 0.5) * std::ldexp(1.0, static_cast<int>(c.in(-200, 100))) : c.unit() * 100; break;
    }
    v[i] = cast<T>(x);
  }
  if (std::is_floating_point<T>::value && c.coin(1, 12) && n > 2) { // as far apart as finite numbers can be
    v[0] = -std::numeric_limits<T>::max();
    v[1] = std::numeric_limits<T>::max();
  }
  if (!std::is_floating_point<T>::value && c.coin(1, 12) && n > 2) {
    v[0] = std::numeric_limits<T>::min();
    v[1] = std::numeric_limits<T>::max();
  }
  std::sort(v.begin(), v.end());
  return v;
}

template<class It, class T>
static void
ask(It first, It last, T x, const char* kind, int style)
{
  It e = std::upper_bound(first, last, x);
  It g = bwsl::upper_bound(first, last, x);
  long n = std::distance(first, last);
  bool ok = g == e;
  VF_EV(kind);
  if (n > 10000) VF_EV("interpolated");
  else VF_EV("below_threshold");
  if (!ok) {
    if constexpr (std::is_same<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>::value)
      fail("position", "%s of %ld (distribution %d), value %.17g: position %ld, should be %ld", kind, n, style, static_cast<double>(x), static_cast<long>(g - first), static_cast<long>(e - first));
    else
      fail("position", "%s of %ld (distribution %d), value %.17g: wrong position", kind, n, style, static_cast<double>(x));
  }
}

template<class T>
static T
query(Ctx& c, std::vector<T> const& v)
{
  if (v.empty()) return cast<T>(c.real());
  switch (c.below(9)) {
    case 0: return v.front();
    case 1: return v.back();
    case 2:
    case 3: return v[c.below(v.size())];
    case 4: {
      T a = v[c.below(v.size())];
      if constexpr (std::is_floating_point<T>::value)
        return std::nextafter(a, c.coin() ? std::numeric_limits<T>::max() : -std::numeric_limits<T>::max());
      else
        return c.coin() ? (a == std::numeric_limits<T>::max() ? a : static_cast<T>(a + 1)) : (a == std::numeric_limits<T>::min() ? a : static_cast<T>(a - 1));
    }
    case 5: return cast<T>(static_cast<double>(v.front()) + (static_cast<double>(v.back()) - static_cast<double>(v.front())) * c.unit());
    case 6: return std::numeric_limits<T>::lowest();
    case 7: return std::numeric_limits<T>::max();
    default: return cast<T>(c.real(1, 60));
  }
}

template<class T>
static void
run(Ctx& c, const char* tn)
{
  size_t n;
  bool list = c.coin(1, 12);
  switch (c.below(8)) {
    case 0: n = c.below(4); break;
    case 1:
    case 2: n = c.below(200); break;
    case 3: n = 9990 + c.below(20); break; // around the threshold
    case 4:
    case 5: n = 10001 + c.below(20000); break;
    case 6: n = c.coin(1, 6) ? 100000 + c.below(c.thorough ? 1500000 : 400000) : 10001 + c.below(3000); break;
    default: n = 20000 + c.below(20); break;
  }
  if (list && n > 12000) n = 10001 + c.below(1000);
  int style = 0;
  auto v = values<T>(c, n, style);
  c.note("%zu %s, distribution %d; ", n, tn, style);
  c.sig(n);
  c.sig(static_cast<u64>(style));
  if (n > 0) c.sigd(static_cast<double>(v[n / 3]));
  int q = n > 10000 ? 12 : 20;
  if (list) {
    std::list<T> l(v.begin(), v.end());
    for (int i = 0; i < q / 3; i++) ask(l.begin(), l.end(), query(c, v), "list", style);
  } else if (c.coin(1, 6)) {
    std::deque<T> d(v.begin(), v.end());
    for (int i = 0; i < q; i++) ask(d.cbegin(), d.cend(), query(c, v), "deque", style);
  } else {
    // an exactly sized block: any access outside is seen by the sanitizer
    T* p = new T[n + (n == 0)];
    std::copy(v.begin(), v.end(), p);
    const T* cp = p;
    for (int i = 0; i < q; i++) {
      T x = query(c, v);
      ask(cp, cp + n, x, "pointers", style);
      ask(v.begin(), v.end(), x, "vector", style);
    }
    // a part of a larger range
    if (n > 4) {
      size_t a = c.below(n), b = a + c.below(n - a + 1);
      ask(cp + a, cp + b, query(c, v), "subrange", style);
    }
    // the same place again, with other contents
    if (n > 0 && c.coin(1, 3)) {
      T x = query(c, v);
      ask(cp, cp + n, x, "rewritten", style);
      auto w = values<T>(c, n, style);
      std::copy(w.begin(), w.end(), p);
      ask(cp, cp + n, x, "rewritten", style);
      size_t k = n - c.below(n / 2 + 1);
      ask(cp, cp + k, x, "rewritten", style);
    }
    delete[] p;
  }
  if (n > 1) c.nontrivial = true;
}

void
run_case(Ctx& c)
{
  switch (c.below(6)) {
    case 0:
    case 1: run<double>(c, "double"); break;
    case 2: run<float>(c, "float"); break;
    case 3: run<int>(c, "int"); break;
    case 4: run<long>(c, "long"); break;
    default: run<unsigned long>(c, "unsigned long"); break;
  }
}
