// Rational text conversion round-trips and rejects malformed text.
#include "vf.hpp"
#include <bwsl/RationalNum.hpp>
using namespace vf;

static i128
gcd(i128 a, i128 b)
{
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) {
    i128 t = a % b;
    a = b;
    b = t;
  }
  return a;
}

template<class T>
struct Run
{
  using Rat = bwsl::RationalNum<T>;
  static T number(Ctx& c, bool nonzero)
  {
    T v;
    do {
      v = c.coin() ? static_cast<T>(c.in(-30, 30)) : static_cast<T>(c.spread(static_cast<int>(8 * sizeof(T)) - 1));
      if (c.fuzzing() && nonzero && v == 0) v = 1;
    } while (nonzero && v == 0);
    c.sig(static_cast<u64>(v));
    return v;
  }
  static bool parse(std::string const& t, Rat& r)
  {
    try {
      bwsl::FromString(t, r);
      return true;
    } catch (bwsl::exception::BadParsing const& e) {
      VF_CHECK(std::strlen(e.what()) > 0, "message", "the parsing exception has no text");
      return false;
    }
  }
  void round_trip(Ctx& c)
  {
    T a = number(c, false), b = number(c, true);
    Rat r(a, b);
    c.note("%ld//%ld", (long)a, (long)b);
    std::string e = std::to_string(r.GetNum()) + "//" + std::to_string(r.GetDen());
    std::string t = bwsl::ToString(r);
    VF_CHECK(t == e, "written", "%s is written as '%s'", e.c_str(), t.c_str());
    std::ostringstream o;
    o << r;
    VF_CHECK(o.str() == e, "written", "%s is streamed as '%s'", e.c_str(), o.str().c_str());
    Rat q(number(c, false), number(c, true));
    bool ok = parse(t, q);
    VF_CHECK(ok && q.GetNum() == r.GetNum() && q.GetDen() == r.GetDen(), "round_trip", "%s is read back as %ld//%ld (%s)", e.c_str(), (long)q.GetNum(), (long)q.GetDen(), ok ? "accepted" : "refused");
    // any p//q, also one not in lowest terms
    i128 g = gcd(a, b) * (b < 0 ? -1 : 1);
    std::string u = std::to_string(a) + "//" + std::to_string(b);
    Rat s;
    ok = parse(u, s);
    VF_CHECK(ok && s.GetNum() == a / g && s.GetDen() == b / g, "canonical", "'%s' is read as %ld//%ld (%s)", u.c_str(), (long)s.GetNum(), (long)s.GetDen(), ok ? "accepted" : "refused");
    if (g != 1) VF_EV("reduced");
  }
  void sequence(Ctx& c)
  {
    std::vector<Rat> v;
    std::stringstream s;
    size_t n = 1 + c.below(10);
    const char* sep[] = { " ", "\n", "\t", "   " };
    for (size_t i = 0; i < n; i++) {
      v.emplace_back(number(c, false), number(c, true));
      s << v.back() << c.pick(sep);
    }
    for (size_t i = 0; i < n; i++) {
      Rat r;
      VF_CHECK(static_cast<bool>(s >> r) && r.GetNum() == v[i].GetNum() && r.GetDen() == v[i].GetDen(), "sequence", "number %zu of %zu: %ld//%ld is read as %ld//%ld", i, n, (long)v[i].GetNum(), (long)v[i].GetDen(), (long)r.GetNum(), (long)r.GetDen());
    }
    Rat r;
    VF_CHECK(!(s >> r), "exhausted", "a rational is read after the last one");
    c.note("%zu in one stream", n);
  }
  void malformed(Ctx& c)
  {
    std::string p = std::to_string(number(c, false)), q = std::to_string(number(c, true));
    const char* junk[] = { "", "x", "/", "//", "-", "+", ".", "a1", "..", "#", "--1", "e5", ":" };
    const char* between[] = { "x", ".", "-", "\\", "" };
    std::string t;
    static const char* const WIDE[] = { "9223372036854775808", "-9223372036854775809", "18446744073709551616", "18446744073709551617", "99999999999999999999", "340282366920938463463374607431768211456" };
    static const char* const WIDE32[] = { "2147483648", "-2147483649", "4294967296", "4294967297", "-4294967297", "8589934592", "9223372036854775807" };
    auto wide = [&]() -> std::string {
      if (sizeof(T) == 4 && c.coin()) return c.pick(WIDE32);
      if (c.coin(1, 4)) return (c.coin() ? "-" : "") + std::string(1, static_cast<char>('1' + c.below(9))) + std::string(20 + c.below(40), static_cast<char>('0' + c.below(10)));
      return c.pick(WIDE);
    };
    switch (c.below(14)) {
      case 12: t = wide() + "//" + q; VF_EV("out_of_range"); break;
      case 13: t = p + "//" + wide(); VF_EV("out_of_range"); break;
      case 0: t = ""; break;
      case 1: t = p; break;
      case 2: t = p + "/" + q; break;
      case 3: t = p + "//"; break;
      case 4: t = "//" + q; break;
      case 5: t = p + "//0"; break;
      case 6: t = std::string(c.pick(junk)) + "//" + q; break;
      case 7: t = p + "//" + c.pick(junk); break;
      case 8: t = p + ":" + q; break;
      case 9: t = p + "/x/" + q; break;
      case 10: t = p + "///" + q; break;
      default: t = p + c.pick(between) + q; break;
    }
    // an independent reading of the grammar: integer // nonzero integer, end
    if (well_formed(t)) {
      VF_EV("accidentally_well_formed");
      return;
    }
    c.note("'%s'", t.c_str());
    c.sigs(t);
    Rat r(3, 7);
    bool ok = parse(t, r);
    VF_CHECK(!ok, "malformed", "'%s' is read as %ld//%ld", t.c_str(), (long)r.GetNum(), (long)r.GetDen());
    VF_CHECK(r.GetDen() > 0, "malformed.target", "refusing '%s' leaves %ld//%ld", t.c_str(), (long)r.GetNum(), (long)r.GetDen());
    std::istringstream s(t);
    Rat w(3, 7);
    VF_CHECK(!(s >> w) && s.fail(), "malformed.stream", "the stream does not fail on '%s'", t.c_str());
    VF_CHECK(r.GetNum() == 3 && r.GetDen() == 7 && w.GetNum() == 3 && w.GetDen() == 7, "malformed.unchanged", "refusing '%s' changes 3//7 to %ld//%ld (stream: %ld//%ld)", t.c_str(), (long)r.GetNum(), (long)r.GetDen(), (long)w.GetNum(), (long)w.GetDen());
  }
  static bool integer(std::string const& t, size_t& i, bool& zero)
  {
    size_t j = i;
    if (j < t.size() && (t[j] == '-' || t[j] == '+')) j++;
    size_t d = j;
    zero = true;
    for (; j < t.size() && t[j] >= '0' && t[j] <= '9'; j++) zero = zero && t[j] == '0';
    if (j == d) return false;
    i128 v = 0; // a number no variable can hold is no number
    for (size_t k = d; k < j; k++) {
      v = v * 10 + (t[k] - '0');
      if (v > (static_cast<i128>(1) << 100)) return false;
    }
    if (t[i] == '-') v = -v;
    if (v > std::numeric_limits<T>::max() || v < std::numeric_limits<T>::lowest()) return false;
    i = j;
    return true;
  }
  /// true if some prefix of the text is a rational (trailing text is not judged)
  static bool well_formed(std::string const& t)
  {
    size_t i = 0;
    bool z;
    if (!integer(t, i, z)) return false;
    if (t.compare(i, 2, "//") != 0) return false;
    i += 2;
    return integer(t, i, z) && !z;
  }
  void run(Ctx& c)
  {
    c.nontrivial = true;
    switch (c.below(4)) {
      case 0: sequence(c); break;
      case 1: malformed(c); break;
      default: round_trip(c); break;
    }
  }
};

void
run_case(Ctx& c)
{
  if (c.coin()) {
    Run<long> r;
    r.run(c);
  } else {
    Run<int> r;
    r.run(c);
  }
}
