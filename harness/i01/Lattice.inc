static const bwsl::Lattice at_start{ bwsl::SquareLattice, std::vector<size_t>{ 3, 3 } };
static void use(std::ostream& o)
{
  o << at_start.GetDistance(0, 8) << ' ';
  for (auto b : { bwsl::Lattice::boundaries_t::Open, bwsl::Lattice::boundaries_t::Closed }) {
    bwsl::Lattice g(bwsl::TriangularLattice, std::vector<size_t>{ 3, 4 }, b);
    o << g.GetNumSites() << ' ' << g.GetCoordination() << ' ';
    for (size_t i = 0; i < 12; i++) {
      auto x = g.GetCoordinates(i);
      g.EnforceBoundaries(x);
      o << g.GetNeighbors(i).size() << ' ' << g.GetCoordination(i) << ' ' << g.GetDistance(0, i) << ' ' << g.GetVector(3, i)[0] << ' ' << g.GetPosition(i)[1] << ' ' << g.AreNeighbors(2, i) << ' ' << x[0] << ' ';
      if (g.HasClosedBoundaries()) o << g.GetMomentum(i)[1] << ' ' << g.GetWinding(g.GetJump(2, i))[0] << ' ';
    }
    std::vector<int> n(12, 1);
    n[3] = 0;
    std::vector<double> sk(12, 0.0);
    g.AccumulateSk(n, sk);
    o << sk[1] << ' ' << g.ComputeSk(n, 2.0)[2] << ' ';
    std::string f = std::string(std::getenv("VF_SCRATCH")) + "/table";
    g.SaveDistances(f);
    g.SavePositions(f);
    g.SaveMomenta(f);
    g.SavePairs(f);
    std::ifstream in(f);
    std::string t;
    while (in >> t) o << t << ' ';
  }
}
