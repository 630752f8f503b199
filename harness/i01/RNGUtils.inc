template<class G>
static void use_rng(std::ostream& o)
{
  G g(17), h;
  g.discard(1000);
  std::stringstream s;
  {
    boost::archive::text_oarchive out(s);
    out << const_cast<G const&>(g);
  }
  boost::archive::text_iarchive in(s);
  in >> h;
  o << (g == h) << h() << ' ';
}
static void use(std::ostream& o)
{
  use_rng<std::mt19937>(o);
  use_rng<std::mt19937_64>(o);
}
