static void use(std::ostream& o)
{
  using R = bwsl::montecarlo::MoveResult;
  for (auto const& r : { R::Accept(0.25), R::Reject(0.5), R::Impossible(), R() }) o << r.IsAccepted() << r.IsRejected() << r.IsImpossible() << r.Probability() << static_cast<char>(r.GetStatus()) << ' ';
}
