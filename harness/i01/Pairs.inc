static void use(std::ostream& o)
{
  for (size_t i = 0; i < 12; i++) {
    auto p = bwsl::pairs::GetPair(i, 7);
    o << p.first << ',' << p.second << ' ' << bwsl::pairs::GetPairIndex(p, 7) << ' ' << bwsl::pairs::GetPairIndex(p.second, p.first, 7) << ' ';
  }
  o << bwsl::pairs::GetNumPairs(7);
}
