template<class I>
static void use_rat(std::ostream& o)
{
  using R = bwsl::RationalNum<I>;
  R a(6, -4), b(5, 3), c;
  I two = 2;
  o << a + b << ' ' << a - b << ' ' << a * b << ' ' << a / b << ' ' << a + two << ' ' << a - two << ' ' << a * two << ' ' << a / two << ' ' << two + a << ' ' << two - a << ' ' << two * a << ' ' << two / a << ' ' << (a < b) << (a > b) << (a <= b) << (a >= b) << (a == b) << (a != b) << (a < two) << (two < a) << (a == two) << (two != a) << (a > two) << (two >= a) << a.IsInt() << a.GetNum() << a.GetDen() << ' ' << static_cast<double>(b) << static_cast<I>(b) << ' ';
  bwsl::FromString("10//4", c);
  o << bwsl::ToString(c);
  std::istringstream in("3//9");
  in >> c;
  o << c << ' ';
  try {
    bwsl::FromString("x", c);
  } catch (std::exception const& e) {
    o << e.what();
  }
}
static void use(std::ostream& o)
{
  use_rat<int>(o);
  use_rat<long>(o);
}
