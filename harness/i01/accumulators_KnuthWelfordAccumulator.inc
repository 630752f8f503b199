#include "accs.inc"
static void use(std::ostream& o)
{
  use_acc<bwsl::accumulators::KnuthWelfordAccumulator>(o);
  bwsl::accumulators::KnuthWelfordAccumulator a;
  for (double x : { 1.5, 2.5, 7.25 }) a.Add(x);
  o << a.Variance(true) << ' ' << a.Variance(false) << ' ' << a.ScaledVariance() << ' ' << a.StandardDeviation(true) << ' ' << a.Error(false);
}
