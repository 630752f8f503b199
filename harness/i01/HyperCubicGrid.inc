static void use(std::ostream& o)
{
  using G = bwsl::HyperCubicGrid;
  for (auto b : { G::boundaries_t::Open, G::boundaries_t::Closed }) {
    G g(std::vector<size_t>{ 3, 4 }, b);
    o << g.GetDim() << g.GetNumSites() << g.HasOpenBoundaries() << g.HasClosedBoundaries() << g.GetSize().size() << ' ' << g.IndexIsValid(11) << g.IndexIsValid(12) << ' ';
    for (size_t i = 0; i < 12; i++) {
      auto x = g.GetCoordinates(i);
      o << x[0] << x[1] << g.GetIndex(x) << ' ' << g.GetJump(i, 5)[1] << g.IsOnGrid(x) << ' ' << g.GetPairIndex(i, 5) << ' ';
      if (g.HasClosedBoundaries()) o << g.GetMappedSite(i, 7) << ' ' << g.GetUnMappedSite(i, 3) << ' ';
      x[0] += 7;
      g.EnforceBoundaries(x);
      o << x[0] << ' ';
    }
  }
}
