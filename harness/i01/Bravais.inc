static const double at_start = bwsl::TriangularLattice.GetDistance({ 0, 0 }, { 1, 1 }) + bwsl::ChainLattice.GetDistance({ 0 }, { 3 });
static void use(std::ostream& o)
{
  o << at_start << ' ';
  for (auto const* b : { &bwsl::ChainLattice, &bwsl::SquareLattice, &bwsl::CubicLattice, &bwsl::TriangularLattice }) {
    std::vector<long> x(b->GetDim(), 2), y(b->GetDim(), -1);
    o << b->GetDim() << b->GetGamma() << ' ' << b->GetRealSpace(x)[0] << ' ' << b->GetInverseVector(std::vector<double>(b->GetDim(), 1.5))[0] << ' ' << b->GetReciprocalSpace(x)[0] << ' ' << b->GetVector(x, y)[0] << ' ' << b->GetDistance(x, y) << ' ' << std::get<0>(b->GetDistanceVector(x, y)) << ' ';
    for (size_t i = 0; i < b->GetGamma(); i++) o << b->GetNeighbor(x, i)[0] << ' ';
  }
}
