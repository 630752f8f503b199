// Running out of memory is survivable.
//
// Every operation is repeated with the n-th allocation failing, for n over all
// of its allocations (or many of them).  The failure has to come out as
// std::bad_alloc, nothing may leak (LeakSanitizer at exit), and the objects
// that took part are asked, used, assigned and destroyed afterwards.
#include "vf_obj.hpp"
#include <bwsl/RNGUtils.hpp>
#include <cstdlib>
#include <memory>
#include <new>
using namespace vf;

// ------------------------------------------------------------ the fault line
static bool g_armed, g_fired, g_sticky;
static u64 g_left, g_seen;
static void*
allocate(size_t n, size_t al)
{
  if (g_armed) {
    g_seen++;
    if ((g_fired && g_sticky) || g_left-- == 0) {
      g_fired = true;
      return nullptr;
    }
  }
  if (n > (1UL << 30)) return nullptr; // no workload of this file needs it
  if (n == 0) n = 1;
  if (al <= alignof(std::max_align_t)) return std::malloc(n);
  void* p = nullptr;
  return ::posix_memalign(&p, al, n) == 0 ? p : nullptr;
}
static void*
or_throw(void* p)
{
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return or_throw(allocate(n, 1)); }
void* operator new[](size_t n) { return or_throw(allocate(n, 1)); }
void* operator new(size_t n, std::align_val_t a) { return or_throw(allocate(n, static_cast<size_t>(a))); }
void* operator new[](size_t n, std::align_val_t a) { return or_throw(allocate(n, static_cast<size_t>(a))); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return allocate(n, 1); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return allocate(n, 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { std::free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { std::free(p); }

constexpr u64 NEVER = ~0ULL;
enum class How { done, threw, odd };
/// Run f with allocation number n (from 0) failing.
template<class F>
static How
attempt(u64 n, bool sticky, F f)
{
  g_left = n;
  g_seen = 0;
  g_sticky = sticky;
  g_fired = false;
  How how = How::done;
  g_armed = true;
  try {
    f();
    g_armed = false;
  } catch (std::bad_alloc const&) {
    g_armed = false;
    how = How::threw;
  } catch (Violation const&) {
    g_armed = false;
    throw;
  } catch (...) {
    g_armed = false;
    how = How::odd;
  }
  return how;
}
/// The allocations to let fail out of `all`.
static std::vector<u64>
points(Ctx& c, u64 all)
{
  std::vector<u64> v;
  if (all <= 24)
    for (u64 i = 0; i < all; i++) v.push_back(i);
  else
    for (u64 i = 0; i < 20; i++) v.push_back(i < 3 ? i : i < 6 ? all - 1 - (i - 3) : c.below(all));
  return v;
}

/// Everything an object answers, including what only an output shows.
template<class T>
static std::string
facts(T const& o)
{
  return Obj<T>::query(o);
}
template<class K>
static std::string
facts(bwsl::ObservableGroup<K> const& o)
{
  using G = bwsl::ObservableGroup<K>;
  G g(o);
  Op p{};
  auto s = Obj<G>::query(o);
  return s + Obj<G>::op(g, p, "");
}
template<class T>
static bool
may_be_partial(Op const&, T const&, T const&)
{
  return false;
}
/// a forced addition may have grown the histogram already
static bool
may_be_partial(Op const& p, bwsl::HistAccumulator const& now, bwsl::HistAccumulator const& before)
{
  if (p.code < 2 || p.code >= 5 || now.GetCount() != before.GetCount() || now.GetNbins() < before.GetNbins()) return false;
  auto r = now.GetResults();
  if (r.size() != now.GetNbins()) return false;
  for (size_t i = 0; i < r.size(); i++) {
    double e = i < before.GetNbins() ? before.GetResult(i) : 0.0;
    u64 n = i < before.GetNbins() ? before.GetCount(i) : 0;
    if (!same_bits(r[i], e) || !same_bits(now.GetResult(i), e) || now.GetCount(i) != n) return false;
  }
  return true;
}
/// an interrupted output has started new intervals for some keys already
template<class K>
static bool
may_be_partial(Op const& p, bwsl::ObservableGroup<K>& now, bwsl::ObservableGroup<K> const& before)
{
  using G = bwsl::ObservableGroup<K>;
  if (p.code != 0) return false;
  G b(before);
  if (Obj<G>::query(now) != Obj<G>::query(b)) return false;
  Obj<G>::op(now, p, "");
  Obj<G>::op(b, p, "");
  return facts(now) == facts(b);
}

template<class T>
static void
use(Ctx& c, T& o, T& twin, const char* after)
{
  for (int k = 0; k < 4; k++) {
    Op p = draw_op(c);
    auto x = Obj<T>::op(o, p, ""), y = Obj<T>::op(twin, p, "");
    VF_CHECK(x == y, "later", "%s after a failed %s: operation %d shows %.200s, an object without failure %.200s", Obj<T>::name, after, p.code, x.c_str(), y.c_str());
  }
  auto x = facts(o), y = facts(twin);
  VF_CHECK(x == y, "later", "%s after a failed %s and more operations: answers %.250s, an object without failure %.250s", Obj<T>::name, after, x.c_str(), y.c_str());
}

template<class T>
static void
save_tables(T const&)
{
}
static void
save_tables(Lattice const& l)
{
  auto f = scratch_dir() + "/table.csv";
  l.SavePositions(f);
  l.SaveDistances(f);
  l.SaveMomenta(f);
  l.SavePairs(f);
}

template<class T>
static void
check(Ctx& c)
{
  c.sigs(Obj<T>::name);
  c.note("%s: ", Obj<T>::name);
  T base(Obj<T>::fresh(draw_op(c)));
  for (u64 k = c.below(c.coin(1, 3) ? 30 : 8); k > 0; k--) Obj<T>::op(base, draw_op(c), "");
  auto const was = facts(base);
  u64 fired = 0;
  auto judge_base = [&](const char* what) {
    auto x = facts(base);
    VF_CHECK(x == was, "source", "%s: answers %.250s after a failed %s, %.250s before", Obj<T>::name, x.c_str(), what, was.c_str());
  };
  for (int round = 0; round < 3; round++) {
    const bool sticky = c.coin();
    u64 action = c.below(7);
    c.sig(action);
    Op p = draw_op(c);
    switch (action) {
      case 0:
      case 1: { // an operation
        T applied(base);
        attempt(NEVER, false, [&] { Obj<T>::op(applied, p, ""); });
        auto const all = g_seen;
        auto const will = facts(applied);
        for (u64 n : points(c, all)) {
          T o(base);
          auto how = attempt(n, sticky, [&] { Obj<T>::op(o, p, ""); });
          if (!g_fired) continue;
          fired++;
          VF_CHECK(how != How::odd, "operation.exception", "%s: operation %d with allocation %llu failing throws something else than bad_alloc", Obj<T>::name, p.code, static_cast<unsigned long long>(n));
          judge_base("operation on a copy");
          auto now = facts(o);
          if (now == was) {
            VF_EV("operation.nothing");
            T twin(base);
            use(c, o, twin, "operation");
          } else if (now == will) {
            VF_EV("operation.all");
            T twin(applied);
            use(c, o, twin, "operation");
          } else
            VF_CHECK(may_be_partial(p, o, base), "operation.partial", "%s: operation %d with allocation %llu failing leaves %.250s; before %.250s, without failure %.250s", Obj<T>::name, p.code, static_cast<unsigned long long>(n), now.c_str(), was.c_str(), will.c_str());
          o = base;
          auto x = facts(o);
          VF_CHECK(x == was, "reassigned", "%s: assigned after a failure, answers %.250s, its source %.250s", Obj<T>::name, x.c_str(), was.c_str());
        }
        VF_EV("actions.operation");
        break;
      }
      case 2: { // questions
        attempt(NEVER, false, [&] { Obj<T>::query(base); });
        for (u64 n : points(c, g_seen)) {
          auto how = attempt(n, sticky, [&] { Obj<T>::query(base); });
          if (!g_fired) continue;
          fired++;
          VF_CHECK(how != How::odd, "query.exception", "%s: a question with allocation %llu failing throws something else than bad_alloc", Obj<T>::name, static_cast<unsigned long long>(n));
          judge_base("question");
        }
        VF_EV("actions.query");
        break;
      }
      case 3: { // copies, alone and in a growing vector
        auto f = [&] {
          T x(base);
          std::vector<T> v;
          v.push_back(x);
          v.push_back(base);
          v.push_back(v[0]);
        };
        attempt(NEVER, false, f);
        for (u64 n : points(c, g_seen)) {
          auto how = attempt(n, sticky, f);
          if (!g_fired) continue;
          fired++;
          VF_CHECK(how == How::threw, "copy.exception", "%s: a copy with allocation %llu failing does not throw bad_alloc", Obj<T>::name, static_cast<unsigned long long>(n));
          judge_base("copy");
        }
        VF_EV("actions.copy");
        break;
      }
      case 4: { // assignment over another object
        T target0(Obj<T>::fresh(p));
        for (u64 k = c.below(6); k > 0; k--) Obj<T>::op(target0, draw_op(c), "");
        T t0(target0);
        attempt(NEVER, false, [&] { t0 = base; });
        for (u64 n : points(c, g_seen)) {
          T t(target0);
          auto how = attempt(n, sticky, [&] { t = base; });
          if (!g_fired) continue;
          fired++;
          VF_CHECK(how == How::threw, "assign.exception", "%s: an assignment with allocation %llu failing does not throw bad_alloc", Obj<T>::name, static_cast<unsigned long long>(n));
          judge_base("assignment");
          if (c.coin(1, 4)) continue; // destroyed as it is
          t = base;
          auto x = facts(t);
          VF_CHECK(x == was, "reassigned", "%s: assigned again after a failed assignment, answers %.250s, its source %.250s", Obj<T>::name, x.c_str(), was.c_str());
          T twin(base);
          use(c, t, twin, "assignment");
        }
        VF_EV("actions.assign");
        break;
      }
      case 5: { // construction
        attempt(NEVER, false, [&] { T x(Obj<T>::fresh(p)); });
        for (u64 n : points(c, g_seen)) {
          auto how = attempt(n, sticky, [&] { T x(Obj<T>::fresh(p)); });
          if (!g_fired) continue;
          fired++;
          VF_CHECK(how == How::threw, "construct.exception", "%s: construction with allocation %llu failing does not throw bad_alloc", Obj<T>::name, static_cast<unsigned long long>(n));
        }
        judge_base("construction");
        VF_EV("actions.construct");
        break;
      }
      default: { // tables of a lattice
        attempt(NEVER, false, [&] { save_tables(base); });
        for (u64 n : points(c, g_seen)) {
          attempt(n, sticky, [&] { save_tables(base); });
          if (g_fired) fired++;
          judge_base("table");
        }
        VF_EV("actions.save");
        break;
      }
    }
  }
  for (u64 k = 0; k < fired; k++) VF_EV("faults");
  if (fired > 0) {
    c.nontrivial = true;
    VF_EV(Obj<T>::name);
  }
}

/// More bins than there can ever be.
static void
too_many(Ctx& c)
{
  using H = bwsl::HistAccumulator;
  H h = Obj<H>::fresh(draw_op(c));
  for (u64 k = c.below(12); k > 0; k--) Obj<H>::op(h, draw_op(c), "");
  auto const was = Obj<H>::query(h);
  const size_t n = c.coin() ? SIZE_MAX - c.below(1000) : (1UL << 40) + c.below(1000);
  bool threw = false;
  H twin(h);
  try {
    if (c.coin())
      h.Resize(n);
    else
      H x(n);
  } catch (std::bad_alloc const&) {
    threw = true;
  } catch (std::length_error const&) {
    threw = true;
  }
  VF_CHECK(threw, "too_many.refused", "a histogram of %zu bins was made", n);
  auto x = Obj<H>::query(h);
  VF_CHECK(x == was, "too_many.unchanged", "after a refused resize to %zu bins: answers %.250s, before %.250s", n, x.c_str(), was.c_str());
  use(c, h, twin, "resize");
  c.nontrivial = true;
}

/// Free functions that allocate.
static void
functions(Ctx& c)
{
  std::vector<double> w(1 + c.below(30));
  double s = 0;
  for (auto& x : w) s += x = 0.25 + c.unit();
  auto const w0 = w;
  std::vector<size_t> sz{ 1 + c.below(5), 1 + c.below(5), 1 + c.below(5) };
  const size_t i = c.below(sz[0] * sz[1] * sz[2]);
  auto const sz0 = sz;
  const bool sticky = c.coin();
  const u64 seed = c.bits64();
  auto f = [&] {
    std::mt19937_64 g(seed);
    bwsl::choose_between(w, g);
    auto x = bwsl::index_to_array<std::vector<long>>(i, sz);
    bwsl::array_to_index(x, sz);
    bwsl::get_inverted(w);
    bwsl::RationalNum<int> q;
    bwsl::FromString(std::string("100000000000000000000000000000000//7").substr(c.coin() ? 0 : 30), q);
  };
  auto quiet = [&] {
    try {
      f();
    } catch (bwsl::exception::BadParsing const&) {
    }
  };
  attempt(NEVER, false, quiet);
  for (u64 n : points(c, g_seen)) {
    auto how = attempt(n, sticky, quiet);
    if (!g_fired) continue;
    VF_CHECK(how != How::odd, "functions", "with allocation %llu failing something else than bad_alloc is thrown", static_cast<unsigned long long>(n));
    VF_CHECK(w == w0 && sz == sz0, "functions.arguments", "an argument changed when allocation %llu failed", static_cast<unsigned long long>(n));
  }
  c.nontrivial = true;
  c.sig(w.size());
  c.sig(seed);
}

void
run_case(Ctx& c)
{
  switch (c.below(18)) {
    case 0:
    case 1: check<bwsl::HistAccumulator>(c); break;
    case 2: check<bwsl::montecarlo::MoveStats>(c); break;
    case 3:
    case 4: check<bwsl::ObservableGroup<std::string>>(c); break;
    case 5: check<bwsl::ObservableGroup<int>>(c); break;
    case 6: check<bwsl::RationalNum<long>>(c); break;
    case 7: check<bwsl::LinSpace<double>>(c); break;
    case 8: check<bwsl::LogSpace<double>>(c); break;
    case 9:
    case 10: check<Grid>(c); break;
    case 11: check<Bravais>(c); break;
    case 12:
    case 13: check<Lattice>(c); break;
    case 14: check<acc::KnuthWelfordAccumulator>(c); break;
    case 15: functions(c); break;
    default: too_many(c); break;
  }
}
