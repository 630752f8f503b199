static void use(std::ostream& o)
{
  std::vector<double> v{ 0.5, 1.25, -7 };
  bwsl::accumulators::KahanAccumulator a;
  bwsl::accumulators::NeumaierAccumulator b;
  bwsl::accumulators::KnuthWelfordAccumulator c;
  o << bwsl::apply_accumulator(v.begin(), v.end(), a).Sum() << ' ' << bwsl::apply_accumulator(v.begin(), v.end(), b).Mean() << ' ' << bwsl::apply_accumulator(v.begin(), v.end(), c).Variance(true);
}
