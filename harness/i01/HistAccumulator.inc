static void use(std::ostream& o)
{
  bwsl::HistAccumulator h(3);
  h.Add(0);
  h.Add(1, 2.5);
  h.ForceAdd(6, 1.25);
  h.ForceAdd(6);
  for (double x : h.GetResults()) o << x << ' ';
  for (double x : h.GetResults(1)) o << x << ' ';
  o << h.GetResult(6) << ' ' << h.GetCount() << ' ' << h.GetCount(6) << ' ' << h.GetNbins();
  std::stringstream f;
  {
    boost::archive::text_oarchive out(f);
    out << const_cast<bwsl::HistAccumulator const&>(h);
  }
  bwsl::HistAccumulator b;
  boost::archive::text_iarchive in(f);
  in >> b;
  h.Resize(2);
  o << ' ' << h.GetNbins() << b.GetNbins() << b.GetResult(6);
  h.Reset();
  o << h.GetCount();
}
