// A soup of in-contract calls over the whole library, judged only by the
// sanitizers, the checked standard library and the library's own assertions.
#include "vf_obj.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <bwsl/Approx.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/FileUtils.hpp>
#include <bwsl/RNGUtils.hpp>
#include <deque>
#include <list>
#include <memory>
#include <random>
using namespace vf;

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Tree, (Oak)(Ash)(Elm)(Yew))

static u64 g_sink; // every answer flows here, so that none is optimised away
static void
eat(std::string const& s)
{
  for (char ch : s) g_sink = g_sink * 31 + static_cast<unsigned char>(ch);
}

struct Any
{
  virtual ~Any() = default;
  virtual void op(Op const&) = 0;
  virtual void ask() const = 0;
  virtual std::unique_ptr<Any> copy() const = 0;
  virtual void assign(Any const&) = 0;
  virtual void steal(Any&) = 0;
  virtual void restore(bool text, Any& into) const = 0;
};
template<class T, bool Saved>
struct AnyOf : Any
{
  T o;
  explicit AnyOf(T v)
    : o(std::move(v))
  {}
  void op(Op const& p) override { eat(Obj<T>::op(o, p, "")); }
  void ask() const override { eat(Obj<T>::query(o)); }
  std::unique_ptr<Any> copy() const override { return std::make_unique<AnyOf>(o); }
  void assign(Any const& a) override
  {
    if (auto* p = dynamic_cast<AnyOf const*>(&a)) o = p->o;
  }
  void steal(Any& a) override
  {
    auto* p = dynamic_cast<AnyOf*>(&a);
    if (p && p != this) {
      o = std::move(p->o);
      p->o = o;
    }
  }
  void restore(bool text, Any& into) const override
  {
    auto* p = dynamic_cast<AnyOf*>(&into);
#ifndef _GLIBCXX_DEBUG // the archives come from a library built without it
    if constexpr (Saved) {
      if (!p) return;
      std::stringstream f(std::ios::in | std::ios::out | std::ios::binary);
      if (text) {
        {
          boost::archive::text_oarchive a(f);
          a << const_cast<T const&>(o);
        }
        boost::archive::text_iarchive a(f);
        a >> p->o;
      } else {
        {
          boost::archive::binary_oarchive a(f);
          a << const_cast<T const&>(o);
        }
        boost::archive::binary_iarchive a(f);
        a >> p->o;
      }
      VF_EV("restored");
    }
#endif
  }
};
template<class T, bool Saved = true>
static std::unique_ptr<Any>
mk(Op const& p)
{
  return std::make_unique<AnyOf<T, Saved>>(Obj<T>::fresh(p));
}
static std::unique_ptr<Any>
make_any(u64 k, Op const& p)
{
  switch (k) {
    case 0: return mk<acc::KahanAccumulator>(p);
    case 1: return mk<acc::NeumaierAccumulator>(p);
    case 2: return mk<acc::KnuthWelfordAccumulator>(p);
    case 3: return mk<acc::WestAccumulator>(p);
    case 4: return mk<bwsl::NaiveInteger>(p);
    case 5: return mk<bwsl::HistAccumulator>(p);
    case 6: return mk<bwsl::montecarlo::MoveStats>(p);
    case 7: return mk<bwsl::ObservableGroup<std::string>>(p);
    case 8: return mk<bwsl::ObservableGroup<int>>(p);
    case 9: return mk<bwsl::RationalNum<int>, false>(p);
    case 10: return mk<bwsl::RationalNum<long>, false>(p);
    case 11: return mk<bwsl::LinSpace<double>, false>(p);
    case 12: return mk<bwsl::LogSpace<double>, false>(p);
    case 13: return mk<Grid, false>(p);
    case 14: return mk<Bravais, false>(p);
    default: return mk<Lattice, false>(p);
  }
}

/// in-contract corners that the histories above do not reach
static void
corner(Ctx& c)
{
  std::string f = scratch_dir() + "/corner";
  switch (c.below(12)) {
    case 0: { // outputs that cannot be written
      bwsl::ObservableGroup<int> g(scratch_dir() + "/none/such", { 1, 2 });
      g.Measure(1, 2.0);
      g.PrintHeaders();
      g.PrintAndReset();
      Lattice l(bwsl::SquareLattice, { 2, 3 });
      l.SaveDistances(scratch_dir() + "/none/such");
      l.SavePairs("");
      break;
    }
    case 1: { // empty histograms
      bwsl::HistAccumulator h(c.below(3));
      h.Resize(0);
      eat(hx(h.GetResults()));
      h.Reset();
      h.ForceAdd(c.below(40));
      h.Resize(1 + c.below(60));
      eat(hx(h.GetResults()));
      h.Resize(0);
      h.ForceAdd(0, 2.0);
      break;
    }
    case 2: { // empty sequences
      std::vector<double> v;
      acc::KahanAccumulator k;
      bwsl::apply_accumulator(v.begin(), v.end(), k);
      eat(hx(bwsl::accumulate_sum(v)) + hx(bwsl::accumulate_product(v)) + hx(bwsl::l2norm(v)));
      bwsl::invert(v);
      eat(hx(bwsl::get_inverted(v)));
      eat(hx(static_cast<long>(bwsl::upper_bound(v.begin(), v.end(), 1.0) - v.begin())));
      break;
    }
    case 3: { // one-element things
      std::vector<double> one{ c.unit() + 0.1 };
      std::mt19937_64 g(c.bits64());
      eat(hx(static_cast<u64>(bwsl::choose_between(one, g))) + hx(static_cast<u64>(bwsl::choose_between_psums(one, g))));
      eat(hx(static_cast<u64>(bwsl::choose_with_probability(0.0, g))) + hx(static_cast<u64>(bwsl::choose_with_probability(1.0, g))));
      Lattice l(bwsl::CubicLattice, { 1, 1, 1 }, c.coin() ? B::Open : B::Closed);
      eat(Obj<Lattice>::query(l));
      l.SavePairs(f);
      eat(slurp_remove(f));
      break;
    }
    case 4: { // many dimensions
      sizes_t s(4 + c.below(4), 1 + c.below(2));
      Grid g(s, c.coin() ? B::Open : B::Closed);
      eat(query_grid(g));
      break;
    }
    case 5: { // enumerations
      Tree t = Oak;
      std::string n[] = { "Oak", "Ash", "", "oak", std::string(1000, 'x'), std::string(1, '\0') };
      std::string what;
      try {
        FromString(t, n[c.below(6)]);
      } catch (std::exception const& e) {
        what = e.what();
      }
      eat(what + ToString(t));
      break;
    }
    case 6: { // rationals from text
      bwsl::RationalNum<long> q;
      static const char* const t[] = { "3//4", "-3//-9", "0//5", "1//0", "", "//", "5", "5//", "x//2", "12//-4", "99999999999999999999//1", "1// 2" };
      try {
        bwsl::FromString(c.pick(t), q);
      } catch (bwsl::exception::BadParsing const& e) {
        eat(e.what());
      }
      eat(Obj<bwsl::RationalNum<long>>::query(q));
      break;
    }
    case 7: { // statistics refusing things
      using R = bwsl::montecarlo::MoveResult;
      bwsl::montecarlo::MoveStats m(std::string(c.below(200), 'n'));
      std::vector<std::exception_ptr> kept;
      for (int i = 0; i < 8; i++) {
        try {
          switch (c.below(5)) {
            case 0: m.Propose(); break;
            case 1: m.Accept(c.real()); break;
            case 2: m.Reject(c.real()); break;
            case 3: m.Impossible(); break;
            default: m.Add(R(bwsl::montecarlo::MoveStatus::Accepted, c.real())); break;
          }
        } catch (...) {
          kept.push_back(std::current_exception());
        }
      }
      eat(Obj<bwsl::montecarlo::MoveStats>::query(m));
      for (auto& p : kept) {
        try {
          std::rethrow_exception(p);
        } catch (std::exception const& e) {
          eat(e.what());
        }
      }
      break;
    }
    case 8: { // ranges past their ends
      bwsl::LinSpace<double> r(0, 1, 1 + c.below(4));
      for (int i = 0; i < 8; i++) eat(hx(r()));
      eat(hx(r.Collect(3)) + hx(r.Collect(0)));
      bwsl::LogSpace<float> q(1.0f, 2.0f, 1 + c.below(4));
      for (int i = 0; i < 8; i++) eat(hx(static_cast<double>(*++q)));
      break;
    }
    case 9: { // files
      std::ofstream(f) << std::string(c.below(20000), 'x');
      std::ofstream(f + "2") << std::string(c.below(20000), 'x');
      eat(hx(static_cast<u64>(bwsl::compare_files(f, f + "2"))) + hx(static_cast<u64>(bwsl::compare_files(f, f))) + hx(static_cast<u64>(bwsl::compare_files(f, ""))));
      ::unlink(f.c_str());
      ::unlink((f + "2").c_str());
      break;
    }
    case 10: { // containers of other kinds
      std::list<int> l{ 1, 2, 3 };
      std::deque<double> d{ 1, 2, 3 };
      std::array<long, 3> a{ 3, 1, 2 };
      eat(hx(static_cast<long>(bwsl::max(l))) + hx(bwsl::min(d)) + hx(static_cast<long>(bwsl::accumulate_product(a))));
      bwsl::sum_into(l, l);
      bwsl::subtract_into(a, a);
      l.sort();
      auto it = bwsl::upper_bound(l.begin(), l.end(), static_cast<int>(c.in(-1, 9)));
      eat(hx(static_cast<long>(std::distance(l.begin(), it))));
      break;
    }
    default: { // sorted ranges around the threshold of the interpolation
      size_t n = 1 + c.below(3000);
      std::vector<double> v(n);
      for (auto& x : v) x = c.coin(1, 3) ? std::floor(10 * c.unit()) : c.real();
      std::sort(v.begin(), v.end());
      std::unique_ptr<double[]> h(new double[n]);
      std::copy(v.begin(), v.end(), h.get());
      for (int i = 0; i < 10; i++) {
        double x = c.coin() ? v[c.below(n)] : c.real();
        eat(hx(static_cast<long>(bwsl::upper_bound(h.get(), h.get() + n, x) - h.get())));
      }
      break;
    }
  }
  VF_EV("corner");
}

void
run_case(Ctx& c)
{
  std::vector<std::unique_ptr<Any>> v;
  int steps = 5 + static_cast<int>(c.below(60));
  for (int i = 0; i < steps; i++) {
    u64 k = v.empty() ? 0 : c.below(12);
    c.sig(k);
    switch (k) {
      case 0:
      case 1: {
        u64 kind = c.below(16);
        c.sig(kind);
        v.push_back(make_any(kind, draw_op(c)));
        VF_EV("made");
        break;
      }
      case 2: v.push_back(v[c.below(v.size())]->copy()); break;
      case 3: v[c.below(v.size())]->assign(*v[c.below(v.size())]); break;
      case 4: v[c.below(v.size())]->steal(*v[c.below(v.size())]); break;
      case 5: v[c.below(v.size())]->restore(c.coin(), *v[c.below(v.size())]); break;
      case 6:
        if (v.size() > 3) v.erase(v.begin() + static_cast<long>(c.below(v.size())));
        break;
      case 7: corner(c); break;
      case 8:
        v[c.below(v.size())]->ask();
        VF_EV("asked");
        break;
      default:
        v[c.below(v.size())]->op(draw_op(c));
        VF_EV("operation");
        break;
    }
  }
  for (auto const& o : v) o->ask();
  c.note("%d calls, %zu objects", steps, v.size());
  c.nontrivial = true;
}
