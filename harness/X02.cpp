// Derived relational operators agree with the primitive ones.
#include "vf.hpp"
#include <bwsl/RelationalUtils.hpp>
using namespace vf;

/// counts the calls of the primitive operators: the derived ones must use them
struct Plain
{
  int v;
};
inline bool
operator<(Plain const& a, Plain const& b)
{
  return a.v < b.v;
}
OVERLOADRELATIONAL(Plain, Plain)

/// equivalence classes: the order ignores the payload
struct Weak
{
  int v, payload;
};
inline bool
operator<(Weak const& a, Weak const& b)
{
  return a.v / 3 < b.v / 3;
}
OVERLOADRELATIONAL(Weak, Weak)

/// own equality, finer than the equivalence of the order
struct WithEq
{
  int v, tag;
};
inline bool
operator<(WithEq const& a, WithEq const& b)
{
  return a.v < b.v;
}
inline bool
operator==(WithEq const& a, WithEq const& b)
{
  return a.v == b.v && a.tag == b.tag;
}
OVERLOADRELATIONALNOEQ(WithEq, WithEq)

/// mixed operands
struct Cm
{
  int v;
};
struct Inch
{
  int v;
};
inline bool
operator<(Cm const& a, Inch const& b)
{
  return a.v * 100 < b.v * 254;
}
inline bool
operator<(Inch const& a, Cm const& b)
{
  return a.v * 254 < b.v * 100;
}
OVERLOADRELATIONAL(Cm, Inch)
OVERLOADRELATIONAL(Inch, Cm)

struct MixA
{
  int v;
};
struct MixB
{
  int v;
};
inline bool
operator<(MixA const& a, MixB const& b)
{
  return a.v < b.v;
}
inline bool
operator<(MixB const& a, MixA const& b)
{
  return a.v < b.v;
}
inline bool
operator==(MixA const& a, MixB const& b)
{
  return a.v == b.v;
}
inline bool
operator==(MixB const& a, MixA const& b)
{
  return a.v == b.v;
}
OVERLOADRELATIONALNOEQ(MixA, MixB)
OVERLOADRELATIONALNOEQ(MixB, MixA)

/// templates
template<class T>
struct Box
{
  T v;
};
template<class G>
inline bool
operator<(Box<G> const& a, Box<G> const& b)
{
  return a.v < b.v;
}
template<class G>
inline bool
operator<(Box<G> const& a, G const& b)
{
  return a.v < b;
}
template<class G>
inline bool
operator<(G const& a, Box<G> const& b)
{
  return a < b.v;
}
TEMPLATEOVERLOADRELATIONAL(Box<G>, Box<G>, G)
TEMPLATEOVERLOADRELATIONAL(Box<G>, G, G)
TEMPLATEOVERLOADRELATIONAL(G, Box<G>, G)

/// private state reached by friends
class Hidden
{
  int v_;

public:
  explicit Hidden(int v)
    : v_(v)
  {
  }
  FDEFINEOVERLOADRELATIONAL(Hidden, Hidden)
};
inline bool
operator<(Hidden const& a, Hidden const& b)
{
  return a.v_ < b.v_;
}
OVERLOADRELATIONAL(Hidden, Hidden)
/// friends whose definitions all read the private state
class Open
{
  int v_;

public:
  explicit Open(int v)
    : v_(v)
  {
  }
  FDEFINEOVERLOADRELATIONAL(Open, Cm)
};
#define DEF(op)                                                                \
  inline bool operator op(Open const& a, Cm const& b) { return a.v_ op b.v; }
DEF(==)
DEF(!=)
DEF(<)
DEF(<=)
DEF(>)
DEF(>=)

/// the derived operators against the primitive ones; lt(b,a) and eq are given
template<class A, class B>
static void
laws(A const& a, B const& b, bool ab, bool ba, bool eq, const char* kind, long x, long y)
{
  VF_EV(kind);
  VF_CHECK((a < b) == ab && (b < a) == ba, "primitive", "%s (%ld, %ld): the primitive operators are replaced", kind, x, y);
  VF_CHECK((a > b) == ba, "greater", "%s (%ld, %ld): > is %d", kind, x, y, (int)(a > b));
  VF_CHECK((a <= b) == !ba, "less_equal", "%s (%ld, %ld): <= is %d", kind, x, y, (int)(a <= b));
  VF_CHECK((a >= b) == !ab, "greater_equal", "%s (%ld, %ld): >= is %d", kind, x, y, (int)(a >= b));
  VF_CHECK((a == b) == eq, "equal", "%s (%ld, %ld): == is %d", kind, x, y, (int)(a == b));
  VF_CHECK((a != b) == !eq, "not_equal", "%s (%ld, %ld): != is %d", kind, x, y, (int)(a != b));
}
static void
pair(int x, int y)
{
  long X = x, Y = y;
  laws(Plain{ x }, Plain{ y }, x < y, y < x, x == y, "plain", X, Y);
  laws(Weak{ x, y }, Weak{ y, x }, x / 3 < y / 3, y / 3 < x / 3, x / 3 == y / 3, "weak", X, Y);
  laws(WithEq{ x, x & 1 }, WithEq{ y, x & 2 }, x < y, y < x, x == y && (x & 1) == (x & 2), "own_equality", X, Y);
  laws(WithEq{ x, 0 }, WithEq{ x, y }, false, false, y == 0, "own_equality", X, Y);
  laws(Cm{ x }, Inch{ y }, x * 100 < y * 254, y * 254 < x * 100, x * 100 == y * 254, "mixed", X, Y);
  laws(Inch{ x }, Cm{ y }, x * 254 < y * 100, y * 100 < x * 254, x * 254 == y * 100, "mixed", X, Y);
  laws(MixA{ x }, MixB{ y }, x < y, y < x, x == y, "mixed_own_equality", X, Y);
  laws(MixB{ x }, MixA{ y }, x < y, y < x, x == y, "mixed_own_equality", X, Y);
  laws(Box<int>{ x }, Box<int>{ y }, x < y, y < x, x == y, "template", X, Y);
  laws(Box<int>{ x }, y, x < y, y < x, x == y, "template_value", X, Y);
  laws(x, Box<int>{ y }, x < y, y < x, x == y, "value_template", X, Y);
  laws(Box<std::string>{ std::to_string(x) }, Box<std::string>{ std::to_string(y) }, std::to_string(x) < std::to_string(y), std::to_string(y) < std::to_string(x), x == y, "template_text", X, Y);
  laws(Hidden{ x }, Hidden{ y }, x < y, y < x, x == y, "friends", X, Y);
  Open o(x);
  Cm k{ y };
  VF_CHECK((o == k) == (x == y) && (o != k) == (x != y) && (o < k) == (x < y) && (o <= k) == (x <= y) && (o > k) == (x > y) && (o >= k) == (x >= y), "friends_mixed", "the friends of (%d, %d)", x, y);
}

void
run_case(Ctx& c)
{
  c.nontrivial = true;
  if (c.idx % 16 == 0 && !c.fuzzing()) {
    // all small pairs
    int b = static_cast<int>(c.below(20)) - 10;
    for (int x = b - 4; x <= b + 4; x++)
      for (int y = b - 4; y <= b + 4; y++) pair(x, y);
    c.note("all pairs around %d", b);
    c.sig(static_cast<u64>(b));
    return;
  }
  for (int i = 0; i < 20; i++) {
    int x = static_cast<int>(c.spread(22)), y = c.coin(1, 3) ? x + static_cast<int>(c.in(-2, 2)) : static_cast<int>(c.spread(22));
    if (i == 0) c.note("(%d, %d) ...", x, y);
    c.sig(static_cast<u64>(x));
    c.sig(static_cast<u64>(y));
    pair(x, y);
  }
}
