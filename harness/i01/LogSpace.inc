static void use(std::ostream& o)
{
  bwsl::LogSpace<double> r(1.0, 81.0, 8);
  for (auto x : r) o << x << ' ';
  bwsl::LogSpace<double> q(-1, 3, 4, 10.0);
  o << q() << *q << *(q++) << *(++q) << q.Collect(2)[1] << (q == q.end()) << (q != q.begin());
}
