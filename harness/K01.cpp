// Copies are equal and independent; moved and assigned objects keep the value.
#include "vf_obj.hpp"
#include <list>
#include <map>
#include <memory>
#include <optional>
using namespace vf;

/// A live object and a twin with the same history that was never copied.
template<class T>
struct Live
{
  std::optional<T> o;
  Op first{};
  std::vector<Op> hist;
  std::unique_ptr<T> twin;

  void replay()
  {
    twin.reset(new T(Obj<T>::fresh(first)));
    for (auto const& p : hist) Obj<T>::op(*twin, p, "");
  }
};

template<class T>
static void
compare(Live<T>& v, const char* after)
{
  auto x = Obj<T>::query(*v.o), y = Obj<T>::query(*v.twin);
  if (x != y) {
    size_t i = 0;
    while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
    i = i > 60 ? i - 60 : 0;
    VF_CHECK(false, "answers", "%s after %s: answers ...%.250s, an object with the same history ...%.250s", Obj<T>::name, after, x.substr(i).c_str(), y.substr(i).c_str());
  }
  VF_EV("answers");
}

template<class T>
static void
step(Ctx& c, Live<T>& v, const char* after)
{
  Op p = draw_op(c);
  auto x = Obj<T>::op(*v.o, p, ""), y = Obj<T>::op(*v.twin, p, "");
  v.hist.push_back(p);
  VF_CHECK(x == y, "operation", "%s after %s: operation %d shows %.250s, an object with the same history %.250s", Obj<T>::name, after, p.code, x.c_str(), y.c_str());
}

template<class T>
static void
history(Ctx& c)
{
  static_assert(std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value && std::is_move_constructible<T>::value && std::is_move_assignable<T>::value, "");
  c.sigs(Obj<T>::name);
  c.note("%s: ", Obj<T>::name);
  std::vector<Live<T>> live(2 + c.below(3));
  const int most = c.coin() ? 12 : 40;
  auto restart = [&](Live<T>& v) {
    v.first = draw_op(c);
    v.o.emplace(Obj<T>::fresh(v.first));
    v.hist.clear();
    v.replay();
  };
  for (auto& v : live) {
    restart(v);
    for (int k = static_cast<int>(c.below(static_cast<u64>(most))); k > 0; k--) step(c, v, "building");
  }
  const char* what = "";
  auto follow = [](Live<T>& to, Live<T> const& from) {
    to.first = from.first;
    to.hist = from.hist;
    to.replay();
  };
  int rounds = 2 + static_cast<int>(c.below(8));
  for (int r = 0; r < rounds; r++) {
    size_t i = c.below(live.size()), j = c.below(live.size());
    Live<T>&a = live[i], &b = live[j];
    u64 how = c.below(12);
    c.sig(how);
    bool moved = false;
    switch (how) {
      case 0: { // copy construction
        T const& s = *a.o;
        T n(s);
        if (i != j) {
          b.o.emplace(n);
          follow(b, a);
        }
        VF_EV(what = "copy_construction");
        break;
      }
      case 1: // copy assignment over a used object
        if (i == j) break;
        {
          T const& s = *a.o;
          T& ret = (*b.o = s);
          VF_CHECK(&ret == &*b.o, "assignment.result", "%s: assignment returns another object", Obj<T>::name);
        }
        follow(b, a);
        VF_EV(what = "copy_assignment");
        break;
      case 2: { // self assignment
        T& s = *a.o;
        T const& t = *a.o;
        s = t;
        VF_EV(what = "self_assignment");
        break;
      }
      case 3: // move construction
        if (i == j) break;
        {
          T n(std::move(*a.o));
          b.o.emplace(std::move(n));
        }
        follow(b, a);
        moved = true;
        VF_EV(what = "move_construction");
        break;
      case 4: // move assignment
        if (i == j) break;
        *b.o = std::move(*a.o);
        follow(b, a);
        moved = true;
        VF_EV(what = "move_assignment");
        break;
      case 5: // swap
        if (i == j) break;
        {
          using std::swap;
          swap(*a.o, *b.o);
        }
        std::swap(a.first, b.first);
        std::swap(a.hist, b.hist);
        std::swap(a.twin, b.twin);
        VF_EV(what = "swap");
        break;
      case 6: { // a growing vector that is sorted out again
        std::vector<T> v;
        for (auto& l : live) v.push_back(*l.o);
        v.insert(v.begin(), *a.o);
        v.erase(v.begin());
        std::vector<T> w(v);
        w.insert(w.begin() + 1, v.begin(), v.end());
        std::rotate(w.begin(), w.begin() + 1, w.end());
        // w: all objects but the first, preceded by copies of all
        for (size_t k = 0; k < live.size(); k++) live[k].o.emplace(w[k]);
        VF_EV(what = "vector");
        break;
      }
      case 7: { // other containers
        std::map<int, T> m;
        std::list<T> l;
        for (size_t k = 0; k < live.size(); k++) {
          m.insert_or_assign(static_cast<int>(k), *live[live.size() - 1 - k].o);
          m.insert_or_assign(static_cast<int>(k), *live[k].o);
          l.push_front(*live[k].o);
        }
        l.reverse();
        auto it = l.begin();
        for (size_t k = 0; k < live.size(); k++, ++it) {
          if (c.coin())
            live[k].o.emplace(m.at(static_cast<int>(k)));
          else
            *live[k].o = *it;
        }
        VF_EV(what = "containers");
        break;
      }
      case 8: { // a chain of copies whose middle disappears
        auto p = std::make_unique<T>(*a.o);
        auto q = std::make_unique<T>(*p);
        for (int k = 0; k < 3; k++) Obj<T>::op(*p, draw_op(c), "");
        p.reset();
        a.o.emplace(std::move(*q));
        VF_EV(what = "chain");
        break;
      }
      case 9: // by value through functions
      {
        auto pass = [](T x) { return x; };
        a.o.emplace(pass(*a.o));
        auto held = pass(pass(*a.o));
        *a.o = held;
        VF_EV(what = "by_value");
        break;
      }
      case 10: // assignment from a temporary, and the old value is gone
        if (i == j) break;
        *b.o = T(*a.o);
        follow(b, a);
        VF_EV(what = "temporary");
        break;
      default: { // changing a copy, not the source
        T n(*a.o);
        for (int k = 1 + static_cast<int>(c.below(10)); k > 0; k--) Obj<T>::op(n, draw_op(c), "");
        VF_EV(what = "changed_copy");
        break;
      }
    }
    if (moved) {
      // a moved-from object can be assigned to
      if (c.coin()) {
        a.first = draw_op(c);
        a.hist.clear();
        *a.o = Obj<T>::fresh(a.first);
        a.replay();
      } else {
        T const& s = *b.o;
        *a.o = s;
        follow(a, b);
      }
      VF_EV("assigned_after_move");
    }
    for (auto& v : live) compare(v, what);
    for (auto& v : live)
      for (int k = static_cast<int>(c.below(6)); k > 0 && v.hist.size() < 150; k--) step(c, v, what);
    for (auto& v : live) compare(v, what);
    if (live.size() > 2 && c.coin(1, 6)) {
      live.erase(live.begin() + static_cast<long>(c.below(live.size())));
      for (auto& v : live) compare(v, "destroying another");
    }
  }
  VF_EV(Obj<T>::name);
}

void
run_case(Ctx& c)
{
  c.nontrivial = true;
  switch (c.below(16)) {
    case 0: history<acc::KahanAccumulator>(c); break;
    case 1: history<acc::NeumaierAccumulator>(c); break;
    case 2: history<acc::KnuthWelfordAccumulator>(c); break;
    case 3: history<acc::WestAccumulator>(c); break;
    case 4: history<bwsl::NaiveInteger>(c); break;
    case 5: history<bwsl::HistAccumulator>(c); break;
    case 6: history<bwsl::montecarlo::MoveStats>(c); break;
    case 7: history<bwsl::ObservableGroup<std::string>>(c); break;
    case 8: history<bwsl::ObservableGroup<int>>(c); break;
    case 9: history<bwsl::RationalNum<int>>(c); break;
    case 10: history<bwsl::RationalNum<long>>(c); break;
    case 11: history<bwsl::LinSpace<double>>(c); break;
    case 12: history<bwsl::LogSpace<double>>(c); break;
    case 13: history<Grid>(c); break;
    case 14: history<Bravais>(c); break;
    default: history<Lattice>(c); break;
  }
}
