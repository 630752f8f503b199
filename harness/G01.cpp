// Site indices and coordinates are inverse bijections on every grid.
#include "vf_grid.hpp"
using namespace vf;

static void
common(Ctx& c, Grid const& g, sizes_t const& s, B b, u64 n)
{
  VF_CHECK(g.GetNumSites() == n, "numsites", "GetNumSites()=%zu, product=%llu of %s", g.GetNumSites(), (unsigned long long)n, VS(s));
  VF_CHECK(g.GetDim() == s.size() && g.GetSize() == s, "shape", "GetSize() %s dim %zu for %s", VS(g.GetSize()), g.GetDim(), VS(s));
  VF_CHECK(g.HasOpenBoundaries() == (b == B::Open) && g.HasClosedBoundaries() == (b == B::Closed) && g.GetBoundaries() == b,
           "boundaries", "boundary type of %s", VS(s));
  Grid part = g.GetGrid();
  VF_CHECK(part.GetNumSites() == n && part.GetSize() == s && part.GetDim() == s.size() && part.GetBoundaries() == b, "get_grid", "GetGrid() of %s", VS(s));
  std::vector<u64> idx{ 0, 1, n / 2, n - 1, n, n + 1, ~0ULL, 1ULL << 63, (1ULL << 63) - 1, 1ULL << 32, 0xffffffffULL };
  for (int k = 0; k < 4; k++)
    idx.push_back(c.bits64() >> c.below(64));
  for (u64 i : idx)
    VF_CHECK(g.IndexIsValid(i) == (i < n), "index_valid", "IndexIsValid(%llu)=%d with %llu sites", (unsigned long long)i, (int)g.IndexIsValid(i), (unsigned long long)n);
}

static void
on_grid(Ctx& c, Grid const& g, sizes_t const& s, int reps)
{
  for (int r = 0; r < reps; r++) {
    lvec x(s.size());
    bool expect = true;
    int badat = c.coin() ? static_cast<int>(c.below(s.size())) : -1;
    for (size_t i = 0; i < s.size(); i++) {
      long L = static_cast<long>(s[i]);
      if (static_cast<int>(i) == badat || c.coin(1, 8)) {
        switch (c.below(9)) {
          case 0: x[i] = -1; break;
          case 1: x[i] = L; break;
          case 2: x[i] = -L; break;
          case 3: x[i] = INT64_MAX; break;
          case 4: x[i] = INT64_MIN; break;
          case 5: x[i] = L == INT64_MAX ? L : L + 1; break;
          case 6: x[i] = 1L << 32; break;
          case 7: x[i] = L - 1; break;
          default: x[i] = c.spread(62); break;
        }
      } else
        x[i] = L == 0 ? 0 : static_cast<long>(some_site(c, s[i]));
      if (x[i] < 0 || x[i] >= L)
        expect = false;
    }
    auto y = x;
    VF_CHECK(g.IsOnGrid(y) == expect, "on_grid", "IsOnGrid(%s)=%d on %s", VS(x), (int)!expect, VS(s));
    VF_CHECK(y == x, "on_grid_pure", "IsOnGrid changed %s", VS(x));
  }
}

template<class C>
static void
other_types(u64 i, sizes_t const& s, lvec const& want)
{
  auto a = bwsl::index_to_array<C, sizes_t>(i, s);
  VF_CHECK(a.size() == want.size() && std::equal(a.begin(), a.end(), want.begin(), [](auto x, long y) { return static_cast<long>(x) == y; }),
           "free_functions", "index_to_array(%llu) over %s", (unsigned long long)i, VS(s));
  VF_CHECK(bwsl::array_to_index(a, s) == i, "free_functions", "array_to_index of %s over %s is not %llu", VS(want), VS(s), (unsigned long long)i);
}

void
run_case(Ctx& c)
{
  B b = c.coin() ? B::Closed : B::Open;
  int kind = static_cast<int>(c.below(10));
  if (kind < 6) {
    auto s = small_sizes(c, 6, c.coin(1, 4) ? 4000 : 300);
    u64 n = product(s);
    sig_sizes(c, s, b);
    c.nontrivial = n > 1;
    Grid g(s, b);
    common(c, g, s, b, n);
    lvec odo(s.size(), 0);
    for (u64 i = 0; i < n; i++) {
      auto x = g.GetCoordinates(i);
      VF_CHECK(x == odo, "coordinates", "GetCoordinates(%llu)=%s, expected %s on %s", (unsigned long long)i, VS(x), VS(odo), VS(s));
      VF_CHECK(g.GetIndex(x) == i, "index_back", "GetIndex%s=%zu, expected %llu on %s", VS(x), g.GetIndex(x), (unsigned long long)i, VS(s));
      VF_CHECK(g.IsOnGrid(x), "inside", "%s not on grid %s", VS(x), VS(s));
      for (size_t k = s.size(); k-- > 0;) {
        if (static_cast<size_t>(++odo[k]) < s[k])
          break;
        odo[k] = 0;
      }
    }
    for (int r = 0; r < 4; r++) {
      u64 i = some_site(c, n);
      auto w = ref_coords(i, s);
      other_types<std::vector<int>>(i, s, w);
      other_types<std::vector<unsigned>>(i, s, w);
      other_types<std::deque<long>>(i, s, w);
      other_types<std::vector<short>>(i, s, w);
      other_types<std::vector<size_t>>(i, s, w);
      if (s.size() == 3) {
        std::array<long, 3> a{ w[0], w[1], w[2] };
        std::array<size_t, 3> sa{ s[0], s[1], s[2] };
        VF_CHECK(bwsl::array_to_index(a, sa) == i, "free_functions", "array_to_index of an array, %llu over %s", (unsigned long long)i, VS(s));
      }
    }
    on_grid(c, g, s, 12);
  } else if (kind < 9) {
    auto s = big_sizes(c, 6, 63);
    for (auto& v : s) // coordinates are signed
      v = std::min<size_t>(v, static_cast<size_t>(INT64_MAX));
    u64 n = product(s);
    sig_sizes(c, s, b);
    c.nontrivial = true;
    VF_EV("big_grids");
    Grid g(s, b);
    common(c, g, s, b, n);
    for (int r = 0; r < 24; r++) {
      u64 i = r == 0 ? n - 1 : r == 1 ? 0 : c.coin() ? c.below(n) : std::min<u64>(n - 1, c.bits64() >> c.below(64));
      auto x = g.GetCoordinates(i);
      auto w = ref_coords(i, s);
      VF_CHECK(x == w, "coordinates", "GetCoordinates(%llu)=%s, expected %s on %s", (unsigned long long)i, VS(x), VS(w), VS(s));
      VF_CHECK(g.GetIndex(x) == i, "index_back", "GetIndex%s=%zu, expected %llu on %s", VS(x), g.GetIndex(x), (unsigned long long)i, VS(s));
      VF_CHECK(g.IsOnGrid(x), "inside", "%s not on grid %s", VS(x), VS(s));
    }
    for (int r = 0; r < 12; r++) { // coordinates to index and back
      lvec x(s.size());
      for (size_t k = 0; k < s.size(); k++)
        x[k] = static_cast<long>(some_site(c, s[k]));
      u64 w = ref_index(x, s), i = g.GetIndex(x);
      VF_CHECK(i == w, "index_of", "GetIndex%s=%llu, expected %llu on %s", VS(x), (unsigned long long)i, (unsigned long long)w, VS(s));
      VF_CHECK(g.GetCoordinates(i) == x, "coordinates_back", "%s lost on %s", VS(x), VS(s));
    }
    on_grid(c, g, s, 12);
  } else {
    // a grid without sites: nothing is valid
    auto s = small_sizes(c, 4, 100);
    s[c.below(s.size())] = 0;
    sig_sizes(c, s, b);
    Grid g(s, b);
    VF_CHECK(g.GetNumSites() == 0 && !g.IndexIsValid(0) && !g.IndexIsValid(1), "empty_grid", "sites on %s", VS(s));
    on_grid(c, g, s, 8);
    Grid d;
    VF_CHECK(d.GetDim() == 0 && d.GetSize().empty() && !d.IndexIsValid(0) && d.GetNumSites() == 0, "default_grid", "default grid");
  }
}
