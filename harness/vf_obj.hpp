// Every class of the library behind one interface: how to build an object, one
// operation of its history, and everything a user can ask it.  Results come
// back as text in which doubles are exact.
#pragma once
#include "vf_lattice.hpp"
#include <bwsl/Accumulators.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/RationalNum.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <fstream>
#include <unistd.h>

namespace vf {
namespace acc = bwsl::accumulators;

inline std::string
hx(double d)
{
  if (std::isnan(d)) return "nan ";
  char b[64];
  std::snprintf(b, sizeof b, "%a ", d);
  return b;
}
inline std::string
hx(u64 v)
{
  return std::to_string(v) + " ";
}
inline std::string
hx(long v)
{
  return std::to_string(v) + " ";
}
template<class T>
std::string
hx(std::vector<T> const& v)
{
  std::string s = "(";
  for (T const& x : v) s += hx(x);
  return s + ")";
}
inline std::string
scratch_dir()
{
  const char* s = std::getenv("VF_SCRATCH");
  return s ? s : "/tmp";
}
inline std::string
slurp_remove(std::string const& p)
{
  std::ifstream f(p, std::ios::binary);
  if (!f) return "(none)";
  std::stringstream s;
  s << f.rdbuf();
  f.close();
  ::unlink(p.c_str());
  return s.str();
}

/// One operation; everything about it is decided by these values.
struct Op
{
  int code;
  double x, w;
  long l;
  u64 seed;
};
inline Op
draw_op(Ctx& c)
{
  Op p;
  p.code = static_cast<int>(c.below(10));
  if (p.code == 0 && c.coin(2, 3)) p.code = 9; // fewer resets
  p.x = c.real();
  p.w = c.coin(1, 8) ? -1.0 : c.unit();
  p.l = static_cast<long>(c.in(-100000, 100000));
  p.seed = c.bits64();
  c.sig(static_cast<u64>(p.code));
  c.sigd(p.x);
  return p;
}
inline Ctx
sub(Op const& p)
{
  Ctx c;
  c.state = p.seed;
  return c;
}
inline const char* const OBJ_KEYS[] = { "energy", "m", "a key with spaces", "", "Z,1", "density" };

/// Obj<T>: name, fresh(op), op(object, op, where), query(object), shared(object):
/// query is everything const; where names the files of this object.
template<class T>
struct Obj;

// ------------------------------------------------------------- accumulators
inline std::string more(acc::KahanAccumulator const&) { return ""; }
inline std::string more(acc::NeumaierAccumulator const&) { return ""; }
inline std::string
more(acc::KnuthWelfordAccumulator const& a)
{
  return hx(a.Variance(true)) + hx(a.Variance(false)) + hx(a.ScaledVariance()) + hx(a.StandardDeviation(true)) + hx(a.Error(true)) + hx(a.Error(false));
}
inline std::string
more(acc::WestAccumulator const& a)
{
  return hx(a.PopulationVariance()) + hx(a.SampleFrequencyVariance()) + hx(a.SampleReliabilityVariance());
}
inline std::string
more(bwsl::NaiveInteger const& a)
{
  return hx(a.Variance(true)) + hx(a.Variance(false)) + hx(a.ScaledVariance());
}
template<class A>
struct AccObj
{
  static A fresh(Op const&) { return A{}; }
  static std::string op(A& o, Op const& p, std::string const&)
  {
    if (p.code == 0) {
      o.Reset();
      return "";
    }
    if constexpr (std::is_same<A, acc::WestAccumulator>::value)
      o.Add(p.x, p.w);
    else if constexpr (std::is_same<A, bwsl::NaiveInteger>::value)
      o.Add(p.l);
    else
      o.Add(p.x);
    return "";
  }
  static std::string query(A const& o)
  {
    return hx(static_cast<u64>(o.Count())) + hx(static_cast<double>(o.Sum())) + (o.Count() ? hx(o.Mean()) : std::string()) + more(o);
  }
};
template<> struct Obj<acc::KahanAccumulator> : AccObj<acc::KahanAccumulator> { static constexpr const char* name = "Kahan"; };
template<> struct Obj<acc::NeumaierAccumulator> : AccObj<acc::NeumaierAccumulator> { static constexpr const char* name = "Neumaier"; };
template<> struct Obj<acc::KnuthWelfordAccumulator> : AccObj<acc::KnuthWelfordAccumulator> { static constexpr const char* name = "KnuthWelford"; };
template<> struct Obj<acc::WestAccumulator> : AccObj<acc::WestAccumulator> { static constexpr const char* name = "West"; };
template<> struct Obj<bwsl::NaiveInteger> : AccObj<bwsl::NaiveInteger> { static constexpr const char* name = "NaiveInteger"; };

// ---------------------------------------------------------------- histogram
template<>
struct Obj<bwsl::HistAccumulator>
{
  using T = bwsl::HistAccumulator;
  static constexpr const char* name = "histogram";
  static T fresh(Op const& p) { return p.code % 2 ? T(static_cast<size_t>(std::labs(p.l) % 20)) : T(); }
  static std::string op(T& o, Op const& p, std::string const&)
  {
    size_t i = static_cast<size_t>(std::labs(p.l) % 23);
    if (p.code == 0)
      o.Reset();
    else if (p.code == 1)
      o.Resize(i);
    else if (p.code < 5)
      o.ForceAdd(i, p.x);
    else if (o.GetNbins() > 0)
      o.Add(i % o.GetNbins(), p.x);
    return "";
  }
  static std::string query(T const& o)
  {
    auto s = hx(static_cast<u64>(o.GetNbins())) + hx(static_cast<u64>(o.GetCount())) + hx(o.GetResults());
    for (size_t i = 0; i < o.GetNbins(); i++) s += hx(o.GetResult(i)) + hx(static_cast<u64>(o.GetCount(i)));
    if (o.GetNbins() > 0 && o.GetResult(0) != 0) s += hx(o.GetResults(0));
    return s;
  }
};
// ----------------------------------------------------------- move statistics
template<>
struct Obj<bwsl::montecarlo::MoveStats>
{
  using T = bwsl::montecarlo::MoveStats;
  static constexpr const char* name = "move statistics";
  static T fresh(Op const& p) { return p.code % 3 ? T(OBJ_KEYS[std::labs(p.l) % 6]) : T(); }
  static std::string op(T& o, Op const& p, std::string const&)
  {
    using R = bwsl::montecarlo::MoveResult;
    try {
      switch (p.code) {
        case 0: o.Reset(); break;
        case 1:
        case 2:
        case 3: o.Propose(); break;
        case 4: o.Accept(p.w); break;
        case 5: o.Reject(p.w); break;
        case 6: o.Impossible(); break;
        case 7: o.Add(R::Accept(p.w)); break;
        case 8: o.Add(R::Reject(p.w)); break;
        default: o.Add(R::Impossible()); break;
      }
    } catch (std::exception const& e) {
      return std::string("refused: ") + e.what();
    }
    return "";
  }
  static std::string query(T const& o)
  {
    std::ostringstream s;
    s << o.GetName() << "|" << hx(o.GetAcceptedRatio()) << hx(o.GetRejectedRatio()) << hx(o.GetImpossibleRatio()) << hx(o.GetAverageProbability());
    s << o;
    return s.str();
  }
};
// -------------------------------------------------------- observable groups
template<class K>
struct Obj<bwsl::ObservableGroup<K>>
{
  using T = bwsl::ObservableGroup<K>;
  static constexpr const char* name = std::is_same<K, std::string>::value ? "observables (text)" : "observables (int)";
  static K key(long i)
  {
    if constexpr (std::is_same<K, std::string>::value)
      return OBJ_KEYS[std::labs(i) % 6];
    else
      return static_cast<K>(i % 6 - 2);
  }
  static thread_local std::string where;
  static std::string file(int i) { return scratch_dir() + (i ? "/second obs" : "/obs") + where + ".csv"; }
  static T fresh(Op const& p)
  {
    if (p.code % 4 == 0) return T();
    if (p.code % 4 == 1) return T(file(static_cast<int>(std::labs(p.l) % 2)));
    std::vector<K> k;
    for (int i = 0; i < std::labs(p.l) % 5; i++) k.push_back(key(p.l / 5 + 2 * i));
    return T(file(static_cast<int>(std::labs(p.l) % 2)), k);
  }
  static std::string op(T& o, Op const& p, std::string const&)
  {
    try {
      if (p.code < 2) {
        ::unlink(file(0).c_str());
        ::unlink(file(1).c_str());
        if (p.code == 0)
          o.PrintAndReset(17);
        else
          o.PrintHeaders();
        return slurp_remove(file(0)) + "|" + slurp_remove(file(1));
      }
      if (p.code < 4)
        o.AddObservable(key(p.l));
      else
        o.Measure(key(p.l), p.x);
    } catch (std::out_of_range const&) {
      return "refused";
    }
    return "";
  }
  /// the headers are the only thing a group tells without resetting
  static std::string query(T const& o)
  {
    ::unlink(file(0).c_str());
    ::unlink(file(1).c_str());
    o.PrintHeaders();
    return slurp_remove(file(0)) + "|" + slurp_remove(file(1));
  }
};
template<class K>
thread_local std::string Obj<bwsl::ObservableGroup<K>>::where;

// ------------------------------------------------------------------ rational
template<class I>
struct Obj<bwsl::RationalNum<I>>
{
  using T = bwsl::RationalNum<I>;
  static constexpr const char* name = std::is_same<I, int>::value ? "rational (int)" : "rational (long)";
  static T fresh(Op const& p)
  {
    switch (p.code % 3) {
      case 0: return T();
      default: return T(static_cast<I>(p.l % 1000), static_cast<I>(1 + p.seed % 100));
    }
  }
  static std::string op(T& o, Op const& p, std::string const&)
  {
    if (std::labs(static_cast<long>(o.GetNum())) > 20000 || std::labs(static_cast<long>(o.GetDen())) > 20000) {
      o = fresh(p);
      return "";
    }
    T q(static_cast<I>(p.l % 50 == 0 ? 1 : p.l % 50), static_cast<I>(1 + p.seed % 50));
    switch (p.code % 6) {
      case 0: o = o + q; break;
      case 1: o = o - q; break;
      case 2: o = o * q; break;
      case 3: o = o / q; break;
      case 4: o = o * static_cast<I>(p.l % 7); break;
      default: o = static_cast<I>(p.l % 100) - o; break;
    }
    return "";
  }
  static std::string query(T const& o)
  {
    std::ostringstream s;
    s << o << "|" << o.GetNum() << "|" << o.GetDen() << "|" << o.IsInt() << "|";
    return s.str() + bwsl::ToString(o) + "|" + hx(static_cast<double>(const_cast<T&>(o))) + hx(static_cast<long>(static_cast<I>(const_cast<T&>(o))));
  }
};
// -------------------------------------------------------------------- ranges
template<class R>
struct RangeObj
{
  static std::string op(R& o, Op const& p, std::string const&)
  {
    switch (p.code % 5) {
      case 0: return hx(static_cast<double>(o()));
      case 1: ++o; return "";
      case 2: return hx(static_cast<double>(*(o++)));
      case 3: {
        std::string s;
        for (auto v : o.Collect(static_cast<unsigned long>(std::labs(p.l) % 5))) s += hx(static_cast<double>(v));
        return s;
      }
      default: return hx(static_cast<double>(*o));
    }
  }
  /// asking a range takes a non-const object
  static std::string query(R const& r)
  {
    R& o = const_cast<R&>(r);
    std::string s = hx(static_cast<double>(*o)) + "from " + hx(static_cast<double>(*o.begin())) + "to " + hx(static_cast<double>(*o.end())) + (o == o.begin() ? "at begin " : "") + (o == o.end() ? "at end " : "") + (o != o.begin() ? "past begin " : "");
    for (auto v : o.Collect(4)) s += hx(static_cast<double>(v));
    unsigned long n = 0;
    for (auto v : o)
      if (n++ < 30) s += hx(static_cast<double>(v));
      else if (n > 200) break;
    return s + hx(static_cast<u64>(n));
  }
};
template<class I>
struct Obj<bwsl::LinSpace<I>> : RangeObj<bwsl::LinSpace<I>>
{
  static constexpr const char* name = std::is_same<I, int>::value ? "linear range (int)" : "linear range (double)";
  static bwsl::LinSpace<I> fresh(Op const& p)
  {
    I a = static_cast<I>(p.l % 100);
    unsigned long n = 1 + p.seed % 40;
    I b = static_cast<I>(a + static_cast<I>(n) * static_cast<I>(1 + p.seed / 64 % 4));
    return bwsl::LinSpace<I>(a, b, n);
  }
};
template<>
struct Obj<bwsl::LogSpace<double>> : RangeObj<bwsl::LogSpace<double>>
{
  static constexpr const char* name = "logarithmic range";
  static bwsl::LogSpace<double> fresh(Op const& p)
  {
    double a = static_cast<double>(p.l % 20);
    return bwsl::LogSpace<double>(static_cast<long>(a), static_cast<long>(a) + 1 + static_cast<long>(p.seed / 64 % 4), 1 + p.seed % 40, p.code % 2 ? 10.0 : 2.0);
  }
};
// --------------------------------------------------------- grids and lattices
inline std::string
query_grid(Grid const& g)
{
  std::string s = hx(static_cast<u64>(g.GetDim())) + hx(g.GetSize()) + hx(static_cast<u64>(g.GetNumSites())) + (g.HasOpenBoundaries() ? "open " : "") + (g.HasClosedBoundaries() ? "closed " : "") + (g.GetBoundaries() == B::Open ? "o " : "c ");
  u64 n = g.GetNumSites(), h = 0;
  for (u64 k = 0; k < 24 && k < n; k++) {
    u64 a = k < 12 ? k : mix64(k) % n, b = mix64(k * 77 + 5) % n;
    auto x = g.GetCoordinates(a);
    s += hx(x) + hx(static_cast<u64>(g.GetIndex(x))) + hx(g.GetJump(a, b));
    s += hx(static_cast<u64>(g.IndexIsValid(a))) + hx(static_cast<u64>(g.IndexIsValid(a + n)));
    if (g.HasClosedBoundaries()) {
      auto m = g.GetMappedSite(a, b);
      s += hx(static_cast<u64>(m)) + hx(static_cast<u64>(g.GetUnMappedSite(m, a)));
      for (auto& v : x) v += static_cast<long>(h) - 3;
      g.EnforceBoundaries(x);
      s += hx(x);
    }
    for (auto& v : x) v += static_cast<long>(k % 5) - 2;
    s += hx(static_cast<u64>(g.IsOnGrid(x)));
    if (a != b) s += hx(static_cast<u64>(g.GetPairIndex(a, b)));
    h = mix64(h + k) % 7;
  }
  return s;
}
template<>
struct Obj<Grid>
{
  static constexpr const char* name = "grid";
  static Grid fresh(Op const& p)
  {
    Ctx c = sub(p);
    if (c.coin(1, 12)) return Grid();
    if (c.coin(1, 4)) return Grid({ 3, c.coin() ? 2UL : 3UL }, c.coin() ? B::Open : B::Closed);
    return Grid(small_sizes(c, 4, 60), c.coin() ? B::Open : B::Closed);
  }
  static std::string op(Grid& g, Op const&, std::string const&) { return query(g); }
  static std::string query(Grid const& g) { return query_grid(g); }
};
inline Bra
plane(Ctx& c)
{
  for (;;) {
    Bra b = random_bra(c, 2);
    if (b.dim == 2) return b;
  }
}
template<>
struct Obj<Bravais>
{
  static constexpr const char* name = "Bravais lattice";
  static Bravais fresh(Op const& p)
  {
    Ctx c = sub(p);
    return (c.coin(1, 3) ? plane(c) : random_bra(c, 3)).br;
  }
  static std::string op(Bravais& g, Op const&, std::string const&) { return query(g); }
  static std::string query(Bravais const& b)
  {
    std::string s = hx(static_cast<u64>(b.GetDim())) + hx(static_cast<u64>(b.GetGamma()));
    for (u64 k = 0; k < 6; k++) {
      lvec x(b.GetDim()), y(b.GetDim());
      for (size_t i = 0; i < x.size(); i++) {
        x[i] = static_cast<long>(mix64(k * 10 + i) % 11) - 5;
        y[i] = static_cast<long>(mix64(k * 10 + i + 1000) % 11) - 5;
      }
      rvec r(x.begin(), x.end());
      s += hx(b.GetRealSpace(x)) + hx(b.GetInverseVector(r)) + hx(b.GetReciprocalSpace(x)) + hx(b.GetVector(x, y)) + hx(b.GetDistance(x, y));
      auto dv = b.GetDistanceVector(x, y);
      s += hx(std::get<0>(dv)) + hx(std::get<1>(dv));
      for (size_t j = 0; j < b.GetGamma(); j++) s += hx(b.GetNeighbor(x, j));
    }
    return s;
  }
};
template<>
struct Obj<Lattice>
{
  static constexpr const char* name = "lattice";
  static Lattice fresh(Op const& p)
  {
    Ctx c = sub(p);
    if (c.coin(1, 12)) return Lattice();
    if (c.coin(1, 3)) { // same shape, another basis or boundary
      auto b = plane(c);
      return Lattice(b.br, { 3, c.coin() ? 2UL : 3UL }, c.coin(1, 3) ? B::Open : B::Closed);
    }
    auto b = random_bra(c, 3);
    auto s = lattice_sizes(c, b, 30);
    return Lattice(b.br, s, c.coin() ? B::Open : B::Closed);
  }
  static std::string op(Lattice& g, Op const&, std::string const&) { return query(g); }
  static std::string query(Lattice const& g)
  {
    std::string s = query_grid(g);
    u64 n = g.GetNumSites();
    if (n == 0) return s;
    for (u64 a = 0; a < n; a++) {
      u64 b = mix64(a) % n;
      s += hx(g.GetPosition(a)) + hx(std::vector<u64>(g.GetNeighbors(a).begin(), g.GetNeighbors(a).end())) + hx(static_cast<u64>(g.GetCoordination(a))) + hx(g.GetDistance(a, b)) + hx(g.GetVector(a, b)) + hx(static_cast<u64>(g.AreNeighbors(a, b)));
      if (g.HasClosedBoundaries()) s += hx(g.GetMomentum(a)) + hx(g.GetWinding(g.GetJump(a, b)));
    }
    s += hx(static_cast<u64>(g.GetCoordination()));
    std::vector<double> occ(n), sk(n, 0.5);
    for (u64 a = 0; a < n; a++) occ[a] = static_cast<double>(mix64(a + 3) % 4);
    s += hx(g.ComputeSk(occ, 2.0));
    g.AccumulateSk(occ, sk, 1.0);
    return s + hx(sk);
  }
};
} // namespace vf
