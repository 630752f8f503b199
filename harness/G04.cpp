// Pair indices identify ordered pairs uniquely.
#include "vf_grid.hpp"
#include <bwsl/Pairs.hpp>
using namespace vf;
namespace p = bwsl::pairs;

static void
pair_ok(u64 a, u64 b, u64 n)
{
  u64 i = p::GetPairIndex(a, b, n);
  VF_CHECK(static_cast<u128>(i) < static_cast<u128>(n) * n, "in_range", "GetPairIndex(%llu,%llu,%llu)=%llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)n, (unsigned long long)i);
  auto q = p::GetPair(i, n);
  VF_CHECK(q.first == a && q.second == b, "round_trip", "pair (%llu,%llu) of %llu comes back as (%zu,%zu)", (unsigned long long)a, (unsigned long long)b, (unsigned long long)n, q.first, q.second);
  VF_CHECK(p::GetPairIndex(q, n) == i, "pair_overload", "overload for pairs (%llu,%llu) of %llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)n);
}

void
run_case(Ctx& c)
{
  int kind = static_cast<int>(c.below(4));
  if (kind == 0) {
    u64 n = c.idx < 300 && !c.fuzzing() ? 1 + c.idx : 1 + c.below(70);
    n = std::min<u64>(n, 150);
    c.sig(n);
    c.note("all pairs below %llu", (unsigned long long)n);
    c.nontrivial = n > 1;
    VF_CHECK(p::GetNumPairs(n) == n * n, "numpairs", "GetNumPairs(%llu)=%zu", (unsigned long long)n, p::GetNumPairs(n));
    std::vector<char> seen(n * n, 0);
    for (u64 a = 0; a < n; a++)
      for (u64 b = 0; b < n; b++) {
        pair_ok(a, b, n);
        u64 i = p::GetPairIndex(a, b, n);
        VF_CHECK(!seen[i], "distinct", "index %llu used twice below %llu", (unsigned long long)i, (unsigned long long)n);
        seen[i] = 1;
      }
    for (u64 i = 0; i < n * n; i++) {
      auto q = p::GetPair(i, n);
      VF_CHECK(q.first < n && q.second < n && p::GetPairIndex(q.first, q.second, n) == i, "index_back", "index %llu of %llu", (unsigned long long)i, (unsigned long long)n);
    }
  } else if (kind == 1) {
    u64 n = std::max<u64>(1, std::min<u64>(0xffffffffULL, static_cast<u64>(std::llabs(c.spread(32)))));
    c.sig(n);
    c.note("random pairs below %llu", (unsigned long long)n);
    c.nontrivial = n > 1;
    VF_EV("big_n");
    VF_CHECK(p::GetNumPairs(n) == n * n, "numpairs", "GetNumPairs(%llu)=%zu", (unsigned long long)n, p::GetNumPairs(n));
    for (int r = 0; r < 60; r++) {
      u64 a = some_site(c, n), b = c.coin(1, 6) ? a : some_site(c, n);
      c.sig(a); c.sig(b);
      pair_ok(a, b, n);
      pair_ok(b, a, n);
      u64 i = c.below(n * n);
      auto q = p::GetPair(i, n);
      VF_CHECK(q.first < n && q.second < n && p::GetPairIndex(q.first, q.second, n) == i, "index_back", "index %llu of %llu", (unsigned long long)i, (unsigned long long)n);
    }
  } else {
    // the grid uses the conversions of its number of sites
    auto s = kind == 2 ? small_sizes(c, 4, 40) : big_sizes(c, 4, 31);
    B b = c.coin() ? B::Closed : B::Open;
    sig_sizes(c, s, b);
    u64 n = product(s);
    c.nontrivial = n > 1;
    Grid g(s, b);
    auto one = [&](u64 x, u64 y) {
      u64 i = g.GetPairIndex(x, y);
      VF_CHECK(i == p::GetPairIndex(x, y, n), "grid.index", "pair (%llu,%llu) on %s has index %llu", (unsigned long long)x, (unsigned long long)y, VS(s), (unsigned long long)i);
      VF_CHECK(static_cast<u128>(i) < static_cast<u128>(n) * n, "grid.range", "index %llu on %s", (unsigned long long)i, VS(s));
      auto q = g.GetIndividualIndices(i);
      VF_CHECK(q.first == x && q.second == y, "grid.round_trip", "pair (%llu,%llu) on %s comes back as (%zu,%zu)", (unsigned long long)x, (unsigned long long)y, VS(s), q.first, q.second);
    };
    if (kind == 2)
      for (u64 x = 0; x < n; x++)
        for (u64 y = 0; y < n; y++)
          one(x, y);
    else
      for (int r = 0; r < 40; r++) {
        u64 x = some_site(c, n), y = some_site(c, n);
        one(x, y);
        one(y, x);
      }
  }
}
