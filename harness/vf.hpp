// Core of the monitoring harnesses: choice source, event log, verdicts.
//
// A harness defines   void run_case(vf::Ctx& c);
// One case is one monitored execution: it draws its workload from c (a PRNG
// stream determined by seed and case index, or the bytes of a fuzzer input),
// drives the real library, and compares every observation with an oracle.
// A refuted oracle calls vf::fail(key, ...), where the key names the clause.
#pragma once

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace vf {

using u64 = std::uint64_t;
using i64 = std::int64_t;
using i128 = __int128;
using u128 = unsigned __int128;
using f128 = __float128;

inline u64
mix64(u64 z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Violation
{
  std::string key, msg;
};

[[noreturn]] inline void
fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void
fail(const char* key, const char* fmt, ...)
{
  char buf[1500];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Violation{ key, buf };
}

// ---------------------------------------------------------------- events
inline std::map<std::string, u64>&
events()
{
  static std::map<std::string, u64> m;
  return m;
}
#define VF_EV(name)                                                            \
  do {                                                                         \
    static const char* vf_n_ = nullptr;                                        \
    static ::vf::u64* vf_c_ = nullptr;                                         \
    const char* vf_m_ = (name);                                                \
    if (vf_m_ != vf_n_) {                                                      \
      vf_n_ = vf_m_;                                                           \
      vf_c_ = &::vf::events()[vf_m_];                                          \
    }                                                                          \
    ++*vf_c_;                                                                  \
  } while (0)

/// Check one observation; counts it as an event named by its key.
#define VF_CHECK(cond, key, ...)                                               \
  do {                                                                         \
    VF_EV(key);                                                                \
    if (!(cond))                                                               \
      ::vf::fail(key, __VA_ARGS__);                                            \
  } while (0)

// ---------------------------------------------------------------- context
struct Ctx
{
  u64 seed = 0, idx = 0;
  u64 state = 0;             // PRNG
  const uint8_t* data = nullptr; // fuzz bytes, or null
  size_t size = 0, pos = 0;
  bool thorough = false;

  u64 sighash = 1469598103934665603ULL;
  bool nontrivial = false;
  std::string desc;

  u64 next()
  {
    state += 0x9e3779b97f4a7c15ULL;
    u64 z = state;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  bool fuzzing() const { return data != nullptr; }
  /// very long histories have case numbers of their own (see run.py)
  static constexpr u64 FAR = 1ULL << 40;
  bool marathon() const { return !fuzzing() && idx >= FAR; }
  u64 lap() const { return idx - FAR; }
  u64 bytes(int n)
  {
    u64 v = 0;
    for (int i = 0; i < n; i++)
      v |= static_cast<u64>(pos < size ? data[pos++] : 0) << (8 * i);
    return v;
  }
  /// uniform in [0, n)
  u64 below(u64 n)
  {
    if (n <= 1)
      return 0;
    if (!fuzzing())
      return next() % n;
    int nb = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8;
    return bytes(nb) % n;
  }
  u64 bits64() { return fuzzing() ? bytes(8) : next(); }
  /// uniform in [lo, hi]
  i64 in(i64 lo, i64 hi)
  {
    u64 span = static_cast<u64>(hi) - static_cast<u64>(lo) + 1;
    u64 r = span == 0 ? bits64() : below(span);
    return static_cast<i64>(static_cast<u64>(lo) + r);
  }
  bool coin(u64 num = 1, u64 den = 2) { return below(den) < num; }
  template<class T, size_t N>
  T const& pick(T const (&a)[N])
  {
    return a[below(N)];
  }
  template<class T>
  T const& pick(std::vector<T> const& a)
  {
    return a[below(a.size())];
  }
  /// integer with a magnitude that is itself spread over all bit lengths
  i64 spread(int maxbits)
  {
    int b = static_cast<int>(below(static_cast<u64>(maxbits) + 1));
    u64 m = b == 0 ? 0 : (bits64() & ((b == 64 ? 0 : (1ULL << b)) - 1));
    switch (below(6)) {
      case 0: m = b == 0 ? 0 : (1ULL << (b - 1)); break;
      case 1: m = b >= 63 ? INT64_MAX : (1ULL << b) - 1; break;
      default: break;
    }
    if (m > static_cast<u64>(INT64_MAX))
      m = INT64_MAX;
    return coin() ? static_cast<i64>(m) : -static_cast<i64>(m);
  }
  double unit() { return static_cast<double>(bits64() >> 11) * 0x1p-53; }
  /// a finite double: integers, simple fractions, uniform, wide exponents
  double real(double scale = 1.0, int maxexp = 40)
  {
    double s = coin() ? 1.0 : -1.0;
    switch (below(8)) {
      case 0: return s * scale * static_cast<double>(below(10));
      case 1: return s * scale * static_cast<double>(below(1000)) / 8.0;
      case 2:
      case 3:
      case 4: return s * scale * unit();
      case 5: return s * scale * std::ldexp(1.0 + unit(), static_cast<int>(in(-maxexp, maxexp)));
      case 6: return s * scale * std::ldexp(1.0, static_cast<int>(in(-maxexp, maxexp)));
      default: return s * scale * static_cast<double>(below(1000000)) / 10.0;
    }
  }
  void sig(u64 v) { sighash = mix64(sighash ^ v) + 0x1000193; }
  void sigd(double d)
  {
    u64 v;
    std::memcpy(&v, &d, 8);
    sig(v);
  }
  void sigs(std::string const& s)
  {
    for (unsigned char ch : s)
      sig(ch);
  }
  __attribute__((format(printf, 2, 3))) void note(const char* fmt, ...)
  {
    if (desc.size() > 600)
      return;
    char buf[400];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    desc += buf;
  }
};

// ---------------------------------------------------------------- helpers
template<class V>
std::string
str(V const& v)
{
  std::ostringstream o;
  o.precision(17);
  o << "(";
  bool first = true;
  for (auto const& x : v) {
    if (!first)
      o << ",";
    first = false;
    o << x;
  }
  o << ")";
  return o.str();
}
#define VS(v) (::vf::str(v).c_str())

inline f128
fabsq_(f128 x)
{
  return x < 0 ? -x : x;
}
inline f128
sqrtq_(f128 x)
{
  if (x <= 0)
    return 0;
  int e = 0; // keep the start value in double range
  while (x > 1e200Q) { x *= 0x1p-512Q; e += 256; }
  while (x < 1e-200Q) { x *= 0x1p512Q; e -= 256; }
  f128 r = std::sqrt(static_cast<double>(x));
  for (int i = 0; i < 4; i++)
    r = (r + x / r) / 2;
  for (; e > 0; e -= 256) r *= 0x1p256Q;
  for (; e < 0; e += 256) r *= 0x1p-256Q;
  return r;
}
constexpr f128 PIQ = 3.14159265358979323846264338327950288Q;
constexpr double U = 0x1p-53;

inline bool
same_bits(double a, double b)
{
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  return a == b;
}
inline bool
near(double a, f128 b, f128 tol)
{
  if (std::isnan(a) || std::isinf(a))
    return false;
  return fabsq_(static_cast<f128>(a) - b) <= tol;
}

/// Exact sum of doubles (Shewchuk partials).
class ExactSum
{
  std::vector<double> p_;

public:
  void add(double x)
  {
    size_t n = 0;
    for (double y : p_) {
      if (std::fabs(x) < std::fabs(y))
        std::swap(x, y);
      volatile double hi = x + y;
      volatile double lo = y - (hi - x);
      if (lo != 0.0)
        p_[n++] = lo;
      x = hi;
    }
    p_.resize(n);
    p_.push_back(x);
  }
  /// the exact sum minus d, to within one f128 rounding per partial
  f128 minus(double d) const
  {
    ExactSum e(*this);
    e.add(-d);
    return e.value();
  }
  f128 value() const
  {
    f128 s = 0;
    for (double x : p_)
      s += x;
    return s;
  }
  void clear() { p_.clear(); }
};

} // namespace vf

void
run_case(vf::Ctx& c);
