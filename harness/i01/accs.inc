template<class A>
static void use_acc(std::ostream& o)
{
  A a;
  for (double x : { 1.5, 1e16, -3.0, -1e16, 0.25 }) a.Add(x);
  o << a.Sum() << ' ' << a.Mean() << ' ' << a.Count() << ' ';
  std::stringstream f;
  {
    boost::archive::text_oarchive out(f);
    out << const_cast<A const&>(a);
  }
  A b;
  boost::archive::text_iarchive in(f);
  in >> b;
  o << b.Count() << ' ';
  a.Reset();
  o << a.Count() << ' ';
}
