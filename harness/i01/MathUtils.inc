static void use(std::ostream& o)
{
  std::vector<double> v{ 1.5, -2, 3.25, 0.5 };
  std::vector<long> l{ 3, -4, 12 };
  std::vector<double> w{ 0.1, 0.2, 0.3, 0.4 }, ps{ 0.1, 0.3, 0.6, 1.0 };
  std::mt19937_64 g(7);
  o << bwsl::square(3) << bwsl::square(1.5) << ' ' << bwsl::cube(2L) << ' ' << bwsl::accumulate_product(v) << ' ' << bwsl::accumulate_sum(l) << ' ' << bwsl::max(v) << bwsl::min(l) << ' ' << bwsl::sum_squared<std::vector<double>, double>(v) << ' ' << bwsl::l2norm(v) << ' ' << bwsl::sgn(-2.5) << bwsl::absdiff(3UL, 9UL) << ' ' << bwsl::signeddiff<unsigned long, long>(3UL, 9UL) << ' ' << bwsl::cbinomial(20.0, 7.0) << ' ';
  for (int i = 0; i < 9; i++) o << bwsl::choose_between(w, g) << bwsl::choose_between_psums(ps, g) << bwsl::choose_with_probability(0.4, g);
  std::vector<double> a(v), b(v);
  bwsl::sum_into(a, v);
  bwsl::subtract_into(b, a);
  bwsl::invert(b);
  for (double x : bwsl::get_inverted(b)) o << ' ' << x;
  std::vector<size_t> s{ 3, 4, 5 };
  auto x = bwsl::index_to_array<std::vector<long>>(37UL, s);
  for (long k : x) o << ' ' << k;
  o << ' ' << bwsl::array_to_index(x, s) << ' ' << bwsl::upper_bound(ps.begin(), ps.end(), 0.5) - ps.begin() << ' ' << bwsl::get_gcd(84L, 36L) << ' ' << bwsl::heaviside(0.0) << bwsl::heaviside2(0.0) << bwsl::heaviside(-1.0) << bwsl::heaviside2(2.0) << ' ' << bwsl::lerp(1.0, 3.0, 0.25) << ' ' << bwsl::lerpi(1, 4, 2.0, 3.0);
}
