static void use(std::ostream& o)
{
  o << static_cast<char>(bwsl::montecarlo::MoveStatus::Accepted) << static_cast<char>(bwsl::montecarlo::MoveStatus::Rejected) << static_cast<char>(bwsl::montecarlo::MoveStatus::Impossible);
}
