static void use(std::ostream& o)
{
  bwsl::LinSpace<double> r(1.0, 3.0, 8);
  for (auto x : r) o << x << ' ';
  bwsl::LinSpace<int> q(0, 12, 4);
  o << q() << *q << *(q++) << *(++q) << q.Collect(2)[1] << (q == q.end()) << (q != q.begin());
}
