static void use(std::ostream& o)
{
  bwsl::accumulators::WestAccumulator a;
  for (double x : { 1.5, 2.5, 7.25 }) a.Add(x, x / 2);
  o << a.Count() << ' ' << a.Sum() << ' ' << a.Mean() << ' ' << a.PopulationVariance() << ' ' << a.SampleFrequencyVariance() << ' ' << a.SampleReliabilityVariance();
  a.Reset();
  o << a.Count();
}
