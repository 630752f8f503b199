struct P
{
  int x;
};
static bool operator<(P const& a, P const& b) { return a.x < b.x; }
OVERLOADRELATIONAL(P, P)
struct Q
{
  int x;
};
static bool operator<(Q const& a, Q const& b) { return a.x < b.x; }
static bool operator==(Q const& a, Q const& b) { return a.x == b.x; }
OVERLOADRELATIONALNOEQ(Q, Q)
template<class T>
struct S
{
  T x;
};
template<class T>
static bool operator<(S<T> const& a, S<T> const& b) { return a.x < b.x; }
TEMPLATEOVERLOADRELATIONAL(S<T>, S<T>, T)
template<class T>
static void ask(std::ostream& o)
{
  T a{ 1 }, b{ 2 };
  o << (a == b) << (a != b) << (a < b) << (a <= b) << (a > b) << (a >= b) << (a == a) << (a != a) << (a <= a) << (a >= a) << ' ';
}
static void use(std::ostream& o)
{
  ask<P>(o);
  ask<Q>(o);
  ask<S<long>>(o);
}
