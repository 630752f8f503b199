static void use(std::ostream& o)
{
  bwsl::Approx a(1.0);
  a.SetAbs(0.1).SetRel(0.01);
  for (double x : { 0.5, 0.95, 1.0, 1.05, 2.0 }) o << (a == x) << (x == a) << (a != x) << (x != a) << (a < x) << (x < a) << (a <= x) << (x <= a) << (a > x) << (x > a) << (a >= x) << (x >= a) << ' ';
}
