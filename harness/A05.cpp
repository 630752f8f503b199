// Overflow checking throws exactly on overflow and changes nothing else.
#include "A05_adapter.hpp"
#include "vf_num.hpp"
using namespace vf;

static bool
eq(std::vector<double> const& a, std::vector<double> const& b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!same_bits(a[i], b[i])) return false;
  return true;
}
static const char* NAMES[] = { "Kahan", "Neumaier", "KnuthWelford", "West", "NaiveInteger" };

struct Ref // of the integer accumulator
{
  i128 s = 0, s2 = 0;
};
static bool
fits(i128 v)
{
  return v <= INT64_MAX && v >= INT64_MIN;
}
/// replaces the last occurrence of a token if it is the only one
static bool
edit(std::string& t, std::string const& from, std::string const& to)
{
  std::vector<std::string> tok(1);
  for (char ch : t) {
    if (ch == ' ' || ch == '\n') tok.emplace_back();
    else tok.back() += ch;
  }
  int hits = 0;
  std::string r;
  for (size_t i = 0; i < tok.size(); i++) {
    if (tok[i] == from) {
      hits++;
      tok[i] = to;
    }
    r += (i ? " " : "") + tok[i];
  }
  if (hits != 1) return false;
  t = r;
  return true;
}

void
run_case(Ctx& c)
{
  int kind = static_cast<int>(c.below(5));
  c.sig(static_cast<u64>(kind));
  auto p = make_plain(kind), k = make_checked(kind);
  c.note("%s ", NAMES[kind]);
  Ref r;
  u64 n = 0;
  auto step = [&](double x, double w, long v) {
    bool counted = kind != 3 || w > 0;
    bool over = false;
    if (kind == 4) {
      i128 s = r.s + v, s2 = r.s2 + static_cast<i128>(v) * v;
      over = !fits(s) || !fits(s2);
    }
    if (counted && n == ~0ULL) over = true;
    if (over) {
      auto q0 = k->query();
      auto t0 = k->save();
      int rc = k->add(x, w, v);
      VF_EV(kind == 4 && n != ~0ULL ? "overflow.integer" : "overflow.count");
      VF_CHECK(rc == 1, "throws", "%s: adding %ld (sum %lld, squares %lld, count %llu) does not raise the overflow exception (%d)", NAMES[kind], v, (long long)r.s, (long long)r.s2, (unsigned long long)n, rc);
      VF_CHECK(eq(q0, k->query()) && k->save() == t0 && k->count() == n, "unchanged", "%s: a refused addition changed the accumulator", NAMES[kind]);
      return;
    }
    int rc = k->add(x, w, v);
    VF_CHECK(rc == 0, "no_spurious", "%s: adding %.17g/%ld (sum %lld, squares %lld, count %llu) throws without overflow (%d)", NAMES[kind], x, v, (long long)r.s, (long long)r.s2, (unsigned long long)n, rc);
    p->add(x, w, v);
    if (counted) {
      n++;
      if (kind == 4) {
        r.s += v;
        r.s2 += static_cast<i128>(v) * v;
      }
    }
    VF_CHECK(eq(p->query(), k->query()) && p->count() == k->count() && k->count() == n, "same_results", "%s: results differ between the builds after %llu values", NAMES[kind], (unsigned long long)n);
    const i128 lim = static_cast<i128>(1) << 62;
    if (kind == 4 && n < (1ULL << 40) && r.s2 >= 0 && r.s2 * static_cast<i128>(n) < lim && r.s < (1LL << 31) && r.s > -(1LL << 31))
      VF_CHECK(eq(p->moments(), k->moments()), "same_moments", "%s: moments differ between the builds", NAMES[kind]);
  };
  auto value = [&](double& x, double& w, long& v) {
    x = c.real();
    w = c.coin(1, 6) ? static_cast<double>(c.in(-1, 0)) : c.unit() + 0.01;
    switch (c.below(8)) {
      case 0: v = 3037000499L + c.in(-1, 1); break; // around the root of the limit
      case 1: v = -3037000499L + c.in(-1, 1); break;
      case 2: v = static_cast<long>(c.spread(31)); break;
      case 3: v = static_cast<long>(c.spread(63)); break;
      case 4: v = c.coin() ? INT64_MAX : INT64_MIN; break;
      case 5: v = 0; break;
      default: v = static_cast<long>(c.in(-9, 9)); break;
    }
    c.sigd(x);
    c.sig(static_cast<u64>(v));
  };
  int rounds = 1 + static_cast<int>(c.below(3));
  for (int q = 0; q < rounds; q++) {
    int m = static_cast<int>(c.below(40));
    for (int i = 0; i < m; i++) {
      double x, w;
      long v;
      value(x, w, v);
      step(x, w, v);
    }
    if (c.coin(1, 4)) {
      p->reset();
      k->reset();
      r = Ref{};
      n = 0;
      VF_EV("resets");
    }
  }
  if (n > 1) c.nontrivial = true;
  if (c.coin(2, 3)) {
    // restored near the limits: edit a saved state whose tokens are distinct
    p->reset();
    k->reset();
    r = Ref{};
    n = 0;
    // 41 values of which the sum is 641 and the squares sum differently
    for (int i = 0; i < 41; i++) step(0.5 + i, 1.25, i == 0 ? 601 : 1);
    std::string t = k->save(), t2 = p->save();
    bool ok = true;
    u64 newcount = n;
    i128 ns = r.s, ns2 = r.s2;
    if (kind != 4 || c.coin(1, 3)) {
      newcount = ~0ULL - c.below(4);
      std::string to = std::to_string(newcount);
      ok = edit(t, "41", to) && edit(t2, "41", to);
    }
    if (kind == 4 && ok && c.coin(3, 4)) {
      // a sum near either limit, a sum of squares near its limit
      long s = c.coin() ? INT64_MAX - static_cast<long>(c.below(20)) : INT64_MIN + static_cast<long>(c.below(20));
      std::string from = std::to_string(static_cast<long>(r.s)), to = std::to_string(s);
      ok = edit(t, from, to) && edit(t2, from, to);
      ns = s;
      if (ok && c.coin()) {
        long s2 = INT64_MAX - static_cast<long>(c.below(200));
        from = std::to_string(static_cast<long>(r.s2));
        to = std::to_string(s2);
        ok = edit(t, from, to) && edit(t2, from, to);
        ns2 = s2;
      }
    }
    if (ok) {
      k->load(t);
      p->load(t2);
      if (k->count() == newcount && p->count() == newcount && (kind != 4 || eq(k->query(), { static_cast<double>(static_cast<long>(ns) >> 32), static_cast<double>(static_cast<long>(ns) & 0xffffffff) }))) {
        n = newcount;
        r.s = ns;
        r.s2 = ns2;
        VF_EV("restored_at_limit");
        c.note("restored at count %llu sum %lld", (unsigned long long)n, (long long)r.s);
        for (int i = 0; i < 12; i++) {
          double x, w;
          long v;
          value(x, w, v);
          if (c.coin(2, 3)) v = static_cast<long>(c.in(-15, 15));
          step(x, w, v);
        }
      }
    }
  }
}
