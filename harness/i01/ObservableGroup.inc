static void use(std::ostream& o)
{
  std::string f = std::string(std::getenv("VF_SCRATCH")) + "/obs";
  bwsl::ObservableGroup<std::string> g(f, { "b", "a" });
  bwsl::ObservableGroup<int> i(f, { 4, 2 });
  bwsl::ObservableGroup<int> e(f);
  e.AddObservable(3);
  g.PrintHeaders();
  g.Measure("a", 1.5);
  g.Measure("b", 2.5);
  g.PrintAndReset();
  i.Measure(2, 9);
  i.PrintAndReset(3);
  e.PrintAndReset(3);
  std::stringstream s;
  {
    boost::archive::text_oarchive out(s);
    out << const_cast<bwsl::ObservableGroup<int> const&>(i);
  }
  bwsl::ObservableGroup<int> j;
  boost::archive::text_iarchive in(s);
  in >> j;
  j.PrintHeaders();
  std::ifstream r(f);
  std::string t;
  while (r >> t) o << t << ' ';
}
