// Histories of the accesses of a range, shared by the two kinds of range.
#pragma once
#include "vf.hpp"

namespace vf {
/// value(i) is the expected i-th value with its tolerance
template<class R, class T, class Value>
void
range_history(Ctx& c, R& r, T last, unsigned long steps, Value&& value, bool exhaustive)
{
  auto check = [&](T got, unsigned long i, const char* how) {
    auto e = value(i);
    if (std::is_floating_point<T>::value && fabsq_(e.first) > static_cast<f128>(std::numeric_limits<T>::max()) / 4) return; // beyond the last value and not representable
    VF_CHECK(fabsq_(static_cast<f128>(got) - e.first) <= e.second, "value", "value %lu of %lu by %s is %.17g, should be %.17g (tolerance %.3g)", i, steps, how, static_cast<double>(got), static_cast<double>(e.first), static_cast<double>(e.second));
  };
  unsigned long at = 0; // position of r
  auto visit = [&] {
    // begin to end, from wherever r is
    unsigned long n = 0;
    std::vector<T> seen;
    if (c.coin()) {
      for (auto x = r.begin(); x != r.end(); ++x) {
        if (n > steps) break;
        seen.push_back(*x);
        n++;
      }
    } else {
      auto e = r.end();
      auto x = r.begin();
      while (!(x == e)) {
        if (n > steps) break;
        seen.push_back(*x);
        x++;
        n++;
      }
    }
    VF_CHECK(n == steps, "visits", "%lu values are visited, should be %lu", n, steps);
    for (unsigned long i = 0; i < n; i++) check(seen[i], i, "iteration");
  };
  visit();
  int ops = 1 + static_cast<int>(c.below(30));
  if (exhaustive) ops = 0;
  for (int k = 0; k < ops; k++) {
    u64 op = c.below(9);
    c.sig(op);
    T before = *r;
    switch (op) {
      case 0: { // dereferencing does not move
        T x = *r;
        check(x, at, "dereferencing");
        VF_CHECK(*r == x, "pure", "dereferencing twice gives %.17g and %.17g", (double)x, (double)*r);
        break;
      }
      case 1: { // pre-increment
        if (at + 1 > 2 * steps) break;
        R& s = ++r;
        VF_CHECK(&s == &r, "pre_increment", "pre-increment returns another object");
        at++;
        check(*r, at, "pre-increment");
        break;
      }
      case 2: { // post-increment: the former position
        if (at + 1 > 2 * steps) break;
        R s = r++;
        check(*s, at, "the former position of post-increment");
        VF_CHECK(*s == before, "post_increment", "post-increment returns %.17g, the range was at %.17g", (double)*s, (double)before);
        at++;
        check(*r, at, "post-increment");
        break;
      }
      case 3: { // call style: the value before the step
        if (at + 1 > 2 * steps) break;
        T x = r();
        check(x, at, "call");
        VF_CHECK(x == before, "call", "a call returns %.17g, the range was at %.17g", (double)x, (double)before);
        at++;
        check(*r, at, "the position after a call");
        break;
      }
      case 4: { // collecting starts here and does not advance
        unsigned long n = c.below(std::min<unsigned long>(steps, 60) + 2);
        auto v = r.Collect(n);
        VF_CHECK(v.size() == n, "collect.size", "%zu values collected, should be %lu", v.size(), n);
        for (unsigned long i = 0; i < n; i++) check(v[i], at + i, "collecting");
        VF_CHECK(*r == before, "collect.pure", "collecting moves the range from %.17g to %.17g", (double)before, (double)*r);
        break;
      }
      case 5: {
        auto b = r.begin();
        check(*b, 0, "begin");
        VF_CHECK(*r == before, "begin.pure", "begin moves the range");
        break;
      }
      case 6: {
        auto e = r.end();
        VF_CHECK(*e == last, "end", "the end holds %.17g, should be %.17g", (double)*e, (double)last);
        VF_CHECK(*r == before, "end.pure", "end moves the range");
        break;
      }
      case 7: // positions compare
        VF_CHECK((r == r.begin()) == (at == 0) && (r != r.begin()) == (at != 0), "equality", "position %lu and begin", at);
        VF_CHECK((r == r.end()) == (at == steps) && (r != r.end()) == (at != steps), "equality", "position %lu and the end at %lu", at, steps);
        break;
      default: visit(); break;
    }
  }
  // everything at once, with all ways of stepping giving the same sequence
  R s = r.begin(), t = r.begin(), u = r.begin();
  auto v = s.Collect(steps);
  VF_CHECK(v.size() == steps, "collect.size", "%zu values collected, should be %lu", v.size(), steps);
  for (unsigned long i = 0; i < steps; i++) {
    T a = *s, b = t(), d = *(u++);
    VF_CHECK(a == b && b == d && a == v[i], "same_sequence", "value %lu: %.17g by dereferencing, %.17g by call, %.17g by post-increment, %.17g collected", i, (double)a, (double)b, (double)d, (double)v[i]);
    ++s;
  }
  VF_CHECK(s == r.end() && t == r.end() && u == r.end(), "arrives", "%lu steps do not arrive at the end", steps);
}
} // namespace vf
