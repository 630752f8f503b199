// Container math utilities agree with the element-wise definition.
#include "vf.hpp"
#include <array>
#include <bwsl/MathUtils.hpp>
#include <deque>
#include <list>
using namespace vf;

template<class C>
static std::vector<typename C::value_type>
flat(C const& v)
{
  return { v.begin(), v.end() };
}
template<class C>
static C
make(std::vector<typename C::value_type> const& v)
{
  return C(v.begin(), v.end());
}
template<>
std::array<double, 4>
make(std::vector<double> const& v)
{
  std::array<double, 4> a{};
  std::copy(v.begin(), v.end(), a.begin());
  return a;
}
template<>
std::array<int, 4>
make(std::vector<int> const& v)
{
  std::array<int, 4> a{};
  std::copy(v.begin(), v.end(), a.begin());
  return a;
}
template<class T>
static bool
fits(i128 v)
{
  return v >= static_cast<i128>(std::numeric_limits<T>::min()) && v <= static_cast<i128>(std::numeric_limits<T>::max());
}

/// reductions into the type R
template<class R, class C>
static void
reduce(C const& k, const char* kind)
{
  using T = typename C::value_type;
  auto v = flat(k);
  if constexpr (std::is_integral<T>::value && std::is_integral<R>::value) {
    i128 s = 0, p = 1, q = 0;
    bool sf = true, pf = true, qf = true;
    for (T x : v) {
      s += x;
      sf = sf && fits<R>(s) && fits<R>(x);
      pf = pf && static_cast<i128>(x) < (i128(1) << 62) && static_cast<i128>(x) > -(i128(1) << 62);
      if (pf) p *= x;
      pf = pf && fits<R>(p) && fits<R>(x);
      // a square that fits 64 bits
      qf = qf && static_cast<i128>(x) < (i128(1) << 32) && static_cast<i128>(x) > -(i128(1) << 32);
      if (qf) q += static_cast<i128>(x) * x;
      qf = qf && fits<R>(q) && fits<R>(x);
    }
    if (sf) {
      R g = bwsl::accumulate_sum<C, R>(k);
      VF_CHECK(static_cast<i128>(g) == s, "sum", "%s: the sum of %s is %lld, should be %lld", kind, VS(v), (long long)g, (long long)s);
    }
    if (pf) {
      R g = bwsl::accumulate_product<C, R>(k);
      VF_CHECK(static_cast<i128>(g) == p, "product", "%s: the product of %s is %lld, should be %lld", kind, VS(v), (long long)g, (long long)p);
    }
    if (qf) {
      R g = bwsl::sum_squared<C, R>(k);
      VF_CHECK(static_cast<i128>(g) == q, "sum_squared", "%s: the squares of %s sum to %lld, should be %lld", kind, VS(v), (long long)g, (long long)q);
    }
  } else {
    // in the stated floating type, in the order of the elements
    f128 s = 0, p = 1, q = 0, ab = 0;
    for (T x : v) {
      s += x;
      ab += fabsq_(x);
      p *= x;
      q += static_cast<f128>(x) * x;
    }
    f128 N = static_cast<f128>(v.size() + 2);
    f128 u = static_cast<f128>(std::numeric_limits<R>::epsilon());
    R g = bwsl::accumulate_sum<C, R>(k);
    VF_CHECK(fabsq_(g - s) <= N * u * ab, "sum", "%s: the sum of %s is %.17g, should be %.17g", kind, VS(v), (double)g, (double)s);
    g = bwsl::sum_squared<C, R>(k);
    VF_CHECK(fabsq_(g - q) <= 2 * N * u * q + 1e-300, "sum_squared", "%s: the squares of %s sum to %.17g, should be %.17g", kind, VS(v), (double)g, (double)q);
    if (fabsq_(p) < 1e30 && (p == 0 || fabsq_(p) > 1e-30)) {
      // no partial product may leave the range either
      f128 pp = 1;
      bool ok = true;
      for (T x : v) {
        pp *= x;
        ok = ok && fabsq_(pp) < 1e30 && (x == 0 || fabsq_(pp) > 1e-30);
      }
      g = bwsl::accumulate_product<C, R>(k);
      if (ok) VF_CHECK(fabsq_(g - p) <= 2 * N * u * fabsq_(p), "product", "%s: the product of %s is %.17g, should be %.17g", kind, VS(v), (double)g, (double)p);
    }
  }
}

template<class C>
static void
all(Ctx& c, std::vector<typename C::value_type> const& v, std::vector<typename C::value_type> const& w, const char* kind)
{
  using T = typename C::value_type;
  const C a = make<C>(v);
  // the default result type is the element type
  reduce<T>(a, kind);
  if constexpr (std::is_integral<T>::value) {
    reduce<long>(a, kind);
    reduce<double>(a, kind);
    bool pf = true;
    i128 p = 1, s = 0, q = 0;
    bool sf = true, qf = true;
    for (T x : v) {
      pf = pf && static_cast<i128>(x) < (i128(1) << 62) && static_cast<i128>(x) > -(i128(1) << 62);
      if (pf) p *= x;
      pf = pf && fits<T>(p);
      s += x;
      sf = sf && fits<T>(s);
      qf = qf && static_cast<i128>(x) < (i128(1) << 32) && static_cast<i128>(x) > -(i128(1) << 32);
      if (qf) q += static_cast<i128>(x) * x;
      qf = qf && fits<T>(q) && q < (i128(1) << 62);
    }
    if (pf) VF_CHECK(static_cast<i128>(bwsl::accumulate_product(a)) == p, "product", "%s: the product of %s is %lld", kind, VS(v), (long long)bwsl::accumulate_product(a));
    if (sf) VF_CHECK(static_cast<i128>(bwsl::accumulate_sum(a)) == s, "sum", "%s: the sum of %s is %lld", kind, VS(v), (long long)bwsl::accumulate_sum(a));
    if (qf) VF_CHECK(near(bwsl::l2norm(a), sqrtq_(static_cast<f128>(q)), 4 * U * sqrtq_(static_cast<f128>(q))), "norm", "%s: the norm of %s is %.17g", kind, VS(v), bwsl::l2norm(a));
  } else {
    f128 q = 0;
    for (T x : v) q += static_cast<f128>(x) * x;
    f128 e = sqrtq_(q), u = static_cast<f128>(std::numeric_limits<T>::epsilon());
    VF_CHECK(near(bwsl::l2norm(a), e, static_cast<f128>(v.size() + 4) * u * e + 1e-150), "norm", "%s: the norm of %s is %.17g, should be %.17g", kind, VS(v), bwsl::l2norm(a), (double)e);
  }
  if (!v.empty()) {
    T hi = v[0], lo = v[0];
    for (T x : v) {
      if (x > hi) hi = x;
      if (x < lo) lo = x;
    }
    VF_CHECK(bwsl::max(a) == hi, "max", "%s: the maximum of %s is wrong", kind, VS(v));
    VF_CHECK(bwsl::min(a) == lo, "min", "%s: the minimum of %s is wrong", kind, VS(v));
  }
  VF_CHECK(flat(a) == v, "unmodified", "%s: a reduction changes %s", kind, VS(v));
  // element-wise operations; signed arithmetic must not overflow
  bool add = true, sub = true, neg = true, dbl = true;
  if constexpr (std::is_integral<T>::value && std::is_signed<T>::value)
    for (size_t i = 0; i < v.size(); i++) {
      add = add && fits<T>(static_cast<i128>(v[i]) + w[i]);
      sub = sub && fits<T>(static_cast<i128>(v[i]) - w[i]);
      neg = neg && fits<T>(-static_cast<i128>(v[i]));
      dbl = dbl && fits<T>(2 * static_cast<i128>(v[i]));
    }
  const C b = make<C>(w);
  auto is = [&](C const& got, std::vector<T> const& e, const char* what, C const& operand, std::vector<T> const& operand_was) {
    auto g = flat(got);
    VF_CHECK(g == e, what, "%s: %s of %s and %s is %s", kind, what, VS(v), VS(w), VS(g));
    VF_CHECK(flat(operand) == operand_was, "operand", "%s: %s changes its operand %s to %s", kind, what, VS(operand_was), VS(flat(operand)));
  };
  std::vector<T> e(v.size());
  if (add) {
    C l = make<C>(v);
    C& r = bwsl::sum_into(l, b);
    VF_CHECK(&r == &l, "same_container", "%s: sum_into returns another container", kind);
    for (size_t i = 0; i < v.size(); i++) e[i] = static_cast<T>(v[i] + w[i]);
    is(l, e, "sum_into", b, w);
  }
  if (sub) {
    C l = make<C>(v);
    C& r = bwsl::subtract_into(l, b);
    VF_CHECK(&r == &l, "same_container", "%s: subtract_into returns another container", kind);
    for (size_t i = 0; i < v.size(); i++) e[i] = static_cast<T>(v[i] - w[i]);
    is(l, e, "subtract_into", b, w);
  }
  if (dbl) {
    C l = make<C>(v);
    bwsl::sum_into(l, l);
    for (size_t i = 0; i < v.size(); i++) e[i] = static_cast<T>(v[i] + v[i]);
    is(l, e, "self_sum", b, w);
  }
  C z = make<C>(v);
  bwsl::subtract_into(z, z);
  is(z, std::vector<T>(v.size(), T(0)), "self_difference", b, w);
  if (neg) {
    for (size_t i = 0; i < v.size(); i++) e[i] = static_cast<T>(-v[i]);
    C l = make<C>(v);
    C g = bwsl::get_inverted(l);
    is(g, e, "get_inverted", l, v);
    C& r = bwsl::invert(l);
    VF_CHECK(&r == &l, "same_container", "%s: invert returns another container", kind);
    is(l, e, "invert", b, w);
  }
  c.nontrivial = c.nontrivial || v.size() > 1;
}

template<class T>
static T
element(Ctx& c, int style)
{
  if constexpr (std::is_floating_point<T>::value) {
    switch (style) {
      case 0: return static_cast<T>(c.in(-9, 9));
      case 1: return static_cast<T>(c.unit() - 0.5);
      case 2: return static_cast<T>(c.real(1, 20));
      default: return static_cast<T>(-c.unit());
    }
  } else {
    bool s = std::is_signed<T>::value;
    switch (style) {
      case 0: return static_cast<T>(c.in(s ? -9 : 0, 9));
      case 1: return static_cast<T>(c.in(s ? -1000 : 0, 1000));
      case 2: return static_cast<T>(c.spread(static_cast<int>(8 * sizeof(T)) - 1)) & std::numeric_limits<T>::max();
      default: return static_cast<T>(s ? -static_cast<i64>(c.below(5)) : static_cast<i64>(c.below(5)));
    }
  }
}
template<class T>
static void
with(Ctx& c, const char* tn)
{
  size_t n = c.coin(1, 3) ? c.below(4) : c.coin(1, 20) ? c.below(500) : c.below(20);
  bool arr = (std::is_same<T, double>::value || std::is_same<T, int>::value) && c.coin(1, 4);
  if (arr) n = 4;
  if (!VF_SAN && !arr && !c.fuzzing() && c.coin(1, 1000)) {
    n = 65500 + c.below(20000);
    VF_EV("many_elements");
  }
  int style = static_cast<int>(c.below(4));
  std::vector<T> v(n), w(n);
  for (auto& x : v) x = element<T>(c, style);
  for (auto& x : w) x = element<T>(c, style);
  for (auto x : v) c.sigd(static_cast<double>(x));
  c.note("%zu %s, style %d", n, tn, style);
  if constexpr (std::is_same<T, double>::value || std::is_same<T, int>::value)
    if (arr) {
      all<std::array<T, 4>>(c, v, w, "array");
      VF_EV("array");
      return;
    }
  switch (c.below(4)) {
    case 0:
      all<std::list<T>>(c, v, w, "list");
      VF_EV("list");
      break;
    case 1:
      all<std::deque<T>>(c, v, w, "deque");
      VF_EV("deque");
      break;
    default:
      all<std::vector<T>>(c, v, w, "vector");
      VF_EV("vector");
      break;
  }
}

void
run_case(Ctx& c)
{
  switch (c.below(6)) {
    case 0: with<double>(c, "double"); break;
    case 1: with<float>(c, "float"); break;
    case 2: with<int>(c, "int"); break;
    case 3: with<long>(c, "long"); break;
    case 4: with<unsigned>(c, "unsigned"); break;
    default: with<unsigned long>(c, "unsigned long"); break;
  }
}
