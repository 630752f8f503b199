// Concurrent queries of shared objects and separate objects do not race.
#include "vf_obj.hpp"
#include <atomic>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <bwsl/Approx.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/FileUtils.hpp>
#include <bwsl/RNGUtils.hpp>
#include <memory>
#include <random>
#include <sched.h>
#include <thread>
using namespace vf;

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Fruit, (Apple)(Pear)(Plum)(Quince))

// The threads share nothing of the harness but relaxed atomics, which order
// nothing, so that every unordered pair of accesses stays visible.
static std::atomic<int> g_ready;
static std::atomic<u64> g_ticket;

struct Task
{
  u64 seed = 0;
  int id = 0;
  std::vector<std::string> shown; // in order
  std::vector<u64> tickets;
};

static void
pause_some(Ctx& r)
{
  switch (r.below(6)) {
    case 0: sched_yield(); break;
    case 1:
      for (volatile int i = static_cast<int>(r.below(400)); i > 0; i = i - 1) {}
      break;
    default: break;
  }
}

// ------------------------------------------------------------ shared objects
struct Shared
{
  virtual ~Shared() = default;
  virtual std::string query() const = 0;
  virtual std::string query2(int thread) const = 0;
  virtual const char* name() const = 0;
};
template<class T>
struct SharedOf : Shared
{
  const T o;
  explicit SharedOf(T v)
    : o(std::move(v))
  {}
  std::string query() const override { return Obj<T>::query(o); }
  const char* name() const override { return Obj<T>::name; }
  std::string query2(int thread) const override
  {
    if constexpr (std::is_same<T, Lattice>::value) {
      // saving is a query too; every thread has its own file
      std::string f = scratch_dir() + "/table" + std::to_string(thread), s;
      o.SavePositions(f);
      s += slurp_remove(f);
      o.SaveDistances(f);
      s += slurp_remove(f);
      o.SaveMomenta(f);
      s += slurp_remove(f);
      if (o.GetNumSites() < 12) {
        o.SavePairs(f);
        s += slurp_remove(f);
      }
      return s;
    } else if constexpr (std::is_base_of<AccObj<T>, Obj<T>>::value || std::is_same<T, bwsl::HistAccumulator>::value || std::is_same<T, bwsl::montecarlo::MoveStats>::value) {
      std::ostringstream s;
      boost::archive::text_oarchive a(s);
      a << o;
      T copy(o); // copying reads the source only
      return s.str() + Obj<T>::query(copy);
    } else
      return Obj<T>::query(T(o));
  }
};
template<class T>
static std::unique_ptr<Shared>
build(std::vector<Op> const& h)
{
  T o = Obj<T>::fresh(h[0]);
  if constexpr (!std::is_same<T, Grid>::value && !std::is_same<T, Bravais>::value && !std::is_same<T, Lattice>::value)
    for (size_t i = 1; i < h.size(); i++) Obj<T>::op(o, h[i], "");
  return std::make_unique<SharedOf<T>>(std::move(o));
}
static std::unique_ptr<Shared>
build(int kind, std::vector<Op> const& h)
{
  switch (kind) {
    case 0: return build<acc::KahanAccumulator>(h);
    case 1: return build<acc::NeumaierAccumulator>(h);
    case 2: return build<acc::KnuthWelfordAccumulator>(h);
    case 3: return build<acc::WestAccumulator>(h);
    case 4: return build<bwsl::NaiveInteger>(h);
    case 5: return build<bwsl::HistAccumulator>(h);
    case 6: return build<bwsl::montecarlo::MoveStats>(h);
    case 7: return build<Grid>(h);
    case 8: return build<Bravais>(h);
    default: return build<Lattice>(h);
  }
}

// ----------------------------------------------------- objects of one thread
template<class T>
static std::string
own(Ctx& r)
{
  auto draw = [&r] {
    Op p;
    p.code = static_cast<int>(r.below(10));
    p.x = r.real();
    p.w = r.unit();
    p.l = static_cast<long>(r.in(-100000, 100000));
    p.seed = r.bits64();
    return p;
  };
  T o = Obj<T>::fresh(draw());
  std::string s;
  for (int i = static_cast<int>(r.below(8)); i >= 0; i--) s += Obj<T>::op(o, draw(), "");
  return s + Obj<T>::query(o);
}
template<class G>
static std::string
own_generator(Ctx& r)
{
  G g(static_cast<typename G::result_type>(r.bits64()));
  std::string s;
  std::vector<double> w(1 + r.below(6));
  for (auto& x : w) x = r.unit() + 0.01;
  for (int i = 0; i < 5; i++) s += hx(static_cast<u64>(bwsl::choose_between(w, g))) + hx(static_cast<u64>(bwsl::choose_with_probability(0.5, g)));
  std::partial_sum(w.begin(), w.end(), w.begin());
  for (int i = 0; i < 5; i++) s += hx(static_cast<u64>(bwsl::choose_between_psums(w, g)));
  std::stringstream f;
  {
    boost::archive::text_oarchive a(f);
    a << const_cast<G const&>(g);
  }
  G h;
  boost::archive::text_iarchive a(f);
  a >> h;
  return s + hx(static_cast<u64>(h()));
}
static std::string
own_functions(Ctx& r, int thread)
{
  std::string s;
  std::vector<double> v(1 + r.below(200));
  std::vector<long> l(1 + r.below(20));
  for (auto& x : v) x = r.unit() * 100;
  for (auto& x : l) x = static_cast<long>(r.in(-1000, 1000));
  s += hx(bwsl::accumulate_sum(v)) + hx(bwsl::max(v)) + hx(bwsl::min(v)) + hx(bwsl::l2norm(v)) + hx(bwsl::accumulate_sum(l)) + hx(bwsl::sum_squared<std::vector<long>, long>(l));
  std::sort(v.begin(), v.end());
  s += hx(static_cast<long>(bwsl::upper_bound(v.begin(), v.end(), r.unit() * 100) - v.begin()));
  s += hx(bwsl::cbinomial(static_cast<double>(r.below(60)), static_cast<double>(r.below(5)))) + hx(static_cast<long>(bwsl::get_gcd(static_cast<long>(r.in(1, 5000)), static_cast<long>(r.in(1, 5000)))));
  s += hx(bwsl::lerp(0.0, r.unit(), r.unit())) + hx(bwsl::heaviside(r.unit() - 0.5)) + hx(static_cast<long>(bwsl::sgn(r.in(-2, 2))));
  std::vector<size_t> sz = { 2 + r.below(5), 1 + r.below(5), 2 + r.below(4) };
  u64 n = r.below(product(sz));
  auto x = bwsl::index_to_array<lvec>(n, sz);
  s += hx(x) + hx(static_cast<u64>(bwsl::array_to_index(x, sz)));
  auto p = bwsl::pairs::GetPair(n, 40);
  s += hx(static_cast<u64>(bwsl::pairs::GetPairIndex(p, 40)));
  bwsl::sum_into(l, l);
  s += hx(bwsl::get_inverted(l));
  // texts
  s += ToString(Fruit::Plum);
  Fruit f = Fruit::Apple;
  const char* names[] = { "Quince", "Pear", "Medlar", "" };
  try {
    FromString(f, names[r.below(4)]);
    s += ToString(f);
  } catch (std::exception const& e) {
    s += e.what();
  }
  bwsl::RationalNum<long> q(1, 1);
  std::string t = std::to_string(r.in(-99, 99)) + (r.coin(1, 5) ? "/" : "//") + std::to_string(r.in(1, 99));
  try {
    bwsl::FromString(t, q);
    s += bwsl::ToString(q);
  } catch (std::exception const& e) {
    s += e.what();
  }
  bwsl::Approx ap(r.unit());
  s += hx(static_cast<u64>(ap == 0.5)) + hx(static_cast<u64>(0.5 < ap));
  // files
  std::string a = scratch_dir() + "/a" + std::to_string(thread), b = scratch_dir() + "/b" + std::to_string(thread);
  std::ofstream(a) << t;
  std::ofstream(b) << (r.coin() ? t : t + "0");
  s += hx(static_cast<u64>(bwsl::compare_files(a, b)));
  ::unlink(a.c_str());
  ::unlink(b.c_str());
  return s;
}
static std::string
own_any(Ctx& r, int thread)
{
  Obj<bwsl::ObservableGroup<std::string>>::where = std::to_string(thread);
  Obj<bwsl::ObservableGroup<int>>::where = "i" + std::to_string(thread);
  switch (r.below(20)) {
    case 0: return own<acc::KahanAccumulator>(r);
    case 1: return own<acc::NeumaierAccumulator>(r);
    case 2: return own<acc::KnuthWelfordAccumulator>(r);
    case 3: return own<acc::WestAccumulator>(r);
    case 4: return own<bwsl::NaiveInteger>(r);
    case 5: return own<bwsl::HistAccumulator>(r);
    case 6: return own<bwsl::montecarlo::MoveStats>(r);
    case 7: return own<bwsl::ObservableGroup<std::string>>(r);
    case 8: return own<bwsl::ObservableGroup<int>>(r);
    case 9: return own<bwsl::RationalNum<int>>(r);
    case 10: return own<bwsl::RationalNum<long>>(r);
    case 11: return own<bwsl::LinSpace<double>>(r);
    case 12: return own<bwsl::LogSpace<double>>(r);
    case 13: return own<Grid>(r);
    case 14: return own<Bravais>(r);
    case 15: return own<Lattice>(r);
    case 16: return own_generator<std::mt19937_64>(r);
    case 17: return own_generator<std::mt19937>(r);
    default: return own_functions(r, thread);
  }
}

static void
work(Task& t, std::vector<std::unique_ptr<Shared>> const& shared, int rounds, int share, bool together, int crowd)
{
  Ctx r;
  r.state = t.seed;
  if (together) {
    g_ready.fetch_add(1, std::memory_order_relaxed);
    while (g_ready.load(std::memory_order_relaxed) < crowd) sched_yield();
  }
  for (int i = 0; i < rounds; i++) {
    if (together) {
      Ctx noise;
      noise.state = mix64(t.seed + static_cast<u64>(i)) ^ static_cast<u64>(t.id);
      pause_some(noise);
      t.tickets.push_back(g_ticket.fetch_add(1, std::memory_order_relaxed));
    }
    if (static_cast<int>(r.below(10)) < share && !shared.empty()) {
      auto const& o = *shared[r.below(shared.size())];
      t.shown.push_back(r.coin(3, 4) ? o.query() : o.query2(t.id));
    } else
      t.shown.push_back(own_any(r, t.id));
  }
}

void
run_case(Ctx& c)
{
  int n = 2 + static_cast<int>(c.below(5));
  size_t m = 1 + c.below(4);
  int rounds = 1 + static_cast<int>(c.below(8));
  int share = c.coin(1, 3) ? 10 : c.coin(1, 3) ? 0 : 6;
  bool lockstep = c.coin(1, 3); // all threads do the same
  std::vector<int> kinds;
  std::vector<std::vector<Op>> hist;
  std::vector<std::unique_ptr<Shared>> shared;
  int same = c.coin(1, 3) ? static_cast<int>(c.below(10)) : -1;
  for (size_t i = 0; i < m; i++) {
    kinds.push_back(same >= 0 ? same : static_cast<int>(c.below(10)));
    std::vector<Op> h;
    for (int k = 1 + static_cast<int>(c.below(15)); k > 0; k--) h.push_back(draw_op(c));
    shared.push_back(build(kinds.back(), h));
    hist.push_back(std::move(h));
    c.note("%s, ", shared.back()->name());
  }
  c.note("%d threads, %d calls each, %d in 10 on the shared objects", n, rounds, share);
  std::vector<Task> tasks(static_cast<size_t>(n));
  u64 s0 = c.bits64();
  for (int i = 0; i < n; i++) {
    tasks[static_cast<size_t>(i)].seed = lockstep ? s0 : c.bits64();
    tasks[static_cast<size_t>(i)].id = i;
  }
  g_ready.store(0);
  g_ticket.store(0);
  std::vector<std::thread> th;
  for (auto& t : tasks) th.emplace_back([&t, &shared, rounds, share, n] { work(t, shared, rounds, share, true, n); });
  for (auto& t : th) t.join();
  // alone: the same calls, one thread after the other, on objects never shared.
  // This runs last, so the threads were the first to touch anything lazy.
  std::vector<std::unique_ptr<Shared>> fresh;
  for (size_t i = 0; i < m; i++) fresh.push_back(build(kinds[i], hist[i]));
  u64 order = 0;
  int switches = 0, last = -1;
  std::vector<int> who(g_ticket.load(), -1);
  for (auto& t : tasks)
    for (u64 k : t.tickets) who[k] = t.id;
  for (int w : who) {
    order = mix64(order * 31 + static_cast<u64>(w));
    switches += w != last;
    last = w;
  }
  for (auto& t : tasks) {
    Task alone;
    alone.seed = t.seed;
    alone.id = t.id;
    work(alone, fresh, rounds, share, false, 1);
    VF_CHECK(alone.shown.size() == t.shown.size(), "calls", "%zu and %zu calls", alone.shown.size(), t.shown.size());
    for (size_t i = 0; i < alone.shown.size(); i++) VF_CHECK(alone.shown[i] == t.shown[i], "results", "call %zu of thread %d shows %.200s, alone %.200s", i, t.id, t.shown[i].c_str(), alone.shown[i].c_str());
  }
  for (size_t i = 0; i < m; i++) VF_CHECK(shared[i]->query() == fresh[i]->query(), "untouched", "%s: differs after the threads queried it", shared[i]->name());
  c.sig(order);
  if (switches > n) {
    c.nontrivial = true;
    VF_EV("interleaved");
  }
  if (share > 0) VF_EV("shared");
  if (share < 10) VF_EV("separate");
}
