static void use(std::ostream& o)
{
  using R = bwsl::montecarlo::MoveResult;
  bwsl::montecarlo::MoveStats m("shift");
  m.Propose();
  m.Accept(0.25);
  m.Propose();
  m.Reject(0.75);
  m.Propose();
  m.Impossible();
  m.Add(R::Accept(1.0));
  o << m << ' ' << m.GetName() << m.GetAcceptedRatio() << m.GetRejectedRatio() << m.GetImpossibleRatio() << m.GetAverageProbability();
  for (int k = 0; k < 2; k++) {
    try {
      if (k) m.Propose();
      m.Accept(k ? 2.0 : 0.5);
    } catch (std::exception const& e) {
      o << e.what();
    }
  }
  std::stringstream s;
  {
    boost::archive::text_oarchive out(s);
    out << const_cast<bwsl::montecarlo::MoveStats const&>(m);
  }
  bwsl::montecarlo::MoveStats n;
  boost::archive::text_iarchive in(s);
  in >> n;
  o << n;
  m.Reset();
  o << m;
}
