static void use(std::ostream& o)
{
  bwsl::NaiveInteger a;
  for (long x : { 3L, -8L, 11L }) a.Add(x);
  o << a.Count() << ' ' << a.Sum() << ' ' << a.Mean() << ' ' << a.Variance(true) << ' ' << a.Variance(false) << ' ' << a.ScaledVariance();
  a.Reset();
  o << a.Count();
}
