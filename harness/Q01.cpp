// Results depend only on an object's own history.
//
// A script is one object with a fixed history of operations and questions.
// Its trace when it runs alone is compared with its trace when other objects
// live, work and die around it, when it is asked many more questions, when it
// is built where another object has just died, on other threads, under other
// locales, and with its trace in a process that has not used the library yet.
#include "vf_obj.hpp"
#include <bwsl/Approx.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/Pairs.hpp>
#include <functional>
#include <list>
#include <locale>
#include <memory>
#include <new>
#include <sys/wait.h>
#include <thread>
using namespace vf;

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Q01Enum, (Alpha)(Beta)(AlphaBeta))

/// A stand-in object for the free functions.
struct Free
{};
/// A container at the address of the last one, like the scratch space of a
/// program that uses it again and again.
template<class T>
static std::vector<T>&
pooled(size_t n)
{
  static thread_local std::vector<T> v;
  v.reserve(32768);
  v.assign(n, T{});
  return v;
}
namespace vf {
template<>
struct Obj<Free>
{
  static constexpr const char* name = "free functions";
  static Free fresh(Op const&) { return {}; }
  static std::string op(Free&, Op const& p, std::string const&)
  {
    Ctx c = sub(p);
    switch (c.below(8)) {
      case 0: { // weighted choices
        std::vector<double> own, &w = c.coin() ? pooled<double>(8) : (own.resize(1 + c.below(40)), own), ps;
        double s = 0;
        for (auto& x : w) ps.push_back(s += x = c.coin(1, 4) ? 0.0 : c.unit());
        if (!(s > 0)) return "";
        auto const w0 = w, ps0 = ps;
        std::mt19937_64 g(p.seed), h(p.seed);
        std::string r;
        for (int i = 0; i < 5; i++) r += hx(static_cast<u64>(bwsl::choose_between(w, g))) + hx(static_cast<u64>(bwsl::choose_between_psums(ps, h))) + (bwsl::choose_with_probability(p.w, g) ? "y " : "n ");
        if (w != w0 || ps != ps0) return "weights changed";
        return r + hx(static_cast<u64>(g())) + hx(static_cast<u64>(h()));
      }
      case 1: { // reductions
        std::vector<double> own, &v = c.coin() ? pooled<double>(8) : (own.resize(1 + c.below(40)), own);
        for (auto& x : v) x = c.real(1.0, 8);
        auto const v0 = v;
        auto r = hx(bwsl::accumulate_sum(v)) + hx(bwsl::accumulate_product(v)) + hx(bwsl::max(v)) + hx(bwsl::min(v)) + hx(bwsl::sum_squared<std::vector<double>, double>(v)) + hx(bwsl::l2norm(v)) + hx(bwsl::get_inverted(v));
        return v == v0 ? r : "container changed";
      }
      case 2: { // element-wise
        std::vector<long> own, &a = c.coin() ? pooled<long>(8) : (own.resize(c.below(20)), own), b;
        for (auto& x : a) {
          x = c.in(-1000, 1000);
          b.push_back(c.in(-1000, 1000));
        }
        auto const b0 = b;
        auto r = hx(bwsl::sum_into(a, b)) + hx(bwsl::subtract_into(a, b)) + hx(bwsl::subtract_into(a, b)) + hx(bwsl::invert(a));
        return b == b0 ? r : "container changed";
      }
      case 3: { // search
        const bool big = c.coin(1, 6);
        std::vector<long> own, &v = c.coin() || big ? pooled<long>(big ? 20000 : 32) : (own.resize(c.below(60)), own);
        long x = -50;
        for (auto& y : v) y = x += static_cast<long>(c.below(3));
        std::string r;
        for (int i = 0; i < 6; i++) r += hx(static_cast<long>(bwsl::upper_bound(v.begin(), v.end(), c.coin() ? static_cast<long>(c.below(4)) * 4000 : static_cast<long>(c.in(-60, x + 5))) - v.begin())); // some values are asked for in many ranges
        return r;
      }
      case 4: { // scalars
        long a = c.in(-10000, 10000), b = c.in(-10000, 10000), n = c.in(0, 30), k = c.in(0, 30);
        return hx(bwsl::square(a)) + hx(bwsl::cube(b)) + hx(static_cast<long>(bwsl::sgn(p.x))) + hx(bwsl::absdiff(p.x, p.w)) + hx(bwsl::cbinomial(n, k)) + hx(bwsl::get_gcd(a, b)) + hx(bwsl::heaviside(p.x)) + hx(bwsl::heaviside2(p.w)) + hx(bwsl::lerp(p.x, p.w, 0.25)) + hx(bwsl::lerpi(static_cast<int>(k), 7, p.x, p.w)) + hx(bwsl::signeddiff<unsigned, long>(static_cast<unsigned>(n), static_cast<unsigned>(k)));
      }
      case 5: { // indices and pairs
        std::vector<size_t> own, &sz = c.coin() ? pooled<size_t>(3) : (own.resize(1 + c.below(5)), own);
        size_t n = 1;
        for (auto& s : sz) n *= s = 1 + c.below(7);
        size_t i = c.below(n), j = c.below(n);
        auto x = bwsl::index_to_array<std::vector<long>>(i, sz);
        auto q = bwsl::pairs::GetPairIndex(i, j, n);
        auto ab = bwsl::pairs::GetPair(q, n);
        return hx(x) + hx(static_cast<u64>(bwsl::array_to_index(x, sz))) + hx(static_cast<u64>(q)) + hx(static_cast<u64>(ab.first)) + hx(static_cast<u64>(ab.second)) + hx(static_cast<u64>(bwsl::pairs::GetNumPairs(n)));
      }
      case 6: { // approximate comparisons
        bwsl::Approx a(p.x);
        if (c.coin()) a.SetAbs(c.unit());
        if (c.coin()) a.SetRel(c.unit());
        double y = p.x * (1 + c.unit() / 4) + c.unit() / 4;
        return std::string(y == a ? "eq" : "ne") + (y < a ? "<" : "") + (a < y ? ">" : "") + (y <= a ? "le" : "") + (a >= y ? "ge" : "") + (a != y ? "!" : "") + (a > y ? "gt" : "");
      }
      default: { // names, rationals as text, compensated sums over a range
        std::string r = ToString(static_cast<Q01Enum>(c.below(4)));
        Q01Enum e = Beta;
        try {
          FromString(e, c.coin(1, 4) ? "Gamma" : OBJ_NAMES[c.below(3)]);
          r += hx(static_cast<long>(e));
        } catch (std::exception const& x) {
          r += x.what();
        }
        r += bwsl::montecarlo::exception::InvalidProbability(p.x * 1e4).what();
        r += bwsl::montecarlo::exception::MoveInvalidSequence(r).what();
        std::vector<double> v(c.below(30));
        for (auto& x : v) x = c.real();
        acc::NeumaierAccumulator s;
        bwsl::apply_accumulator(v.begin(), v.end(), s);
        return r + hx(s.Sum()) + hx(static_cast<u64>(s.Count()));
      }
    }
  }
  static constexpr const char* OBJ_NAMES[] = { "Alpha", "Beta", "AlphaBeta" };
  static std::string query(Free const&) { return ""; }
};
constexpr const char* Obj<Free>::OBJ_NAMES[];
} // namespace vf

struct Script
{
  virtual ~Script() = default;
  virtual void place(bool over_a_corpse, Op const& other) = 0;
  virtual std::string start() = 0;
  virtual std::string step(size_t i) = 0;
  virtual std::string ask() = 0;
  virtual void stop() = 0;
  virtual const char* name() const = 0;
  virtual bool any_locale() const = 0;
  std::vector<Op> ops;
  std::vector<char> asked;
  Op first{};
};

template<class T>
struct Of : Script
{
  // the storage stays, so that another object can have lived there
  std::unique_ptr<unsigned char[]> raw{ new unsigned char[sizeof(T) + alignof(T)] };
  T* o = nullptr;
  void* at()
  {
    void* p = raw.get();
    size_t n = sizeof(T) + alignof(T);
    return std::align(alignof(T), sizeof(T), p, n);
  }
  ~Of() override { stop(); }
  void place(bool over, Op const& other) override
  {
    stop();
    if (!over) {
      raw.reset(new unsigned char[sizeof(T) + alignof(T)]);
      return;
    }
    T* x = new (at()) T(Obj<T>::fresh(other));
    Obj<T>::op(*x, other, "");
    Obj<T>::query(*x);
    x->~T();
  }
  std::string start() override
  {
    stop();
    o = new (at()) T(Obj<T>::fresh(first));
    return Obj<T>::query(*o);
  }
  std::string step(size_t i) override
  {
    auto s = Obj<T>::op(*o, ops[i], "");
    if (asked[i]) s += " ? " + Obj<T>::query(*o);
    return s;
  }
  std::string ask() override { return Obj<T>::query(*o); }
  void stop() override
  {
    if (o) o->~T();
    o = nullptr;
  }
  const char* name() const override { return Obj<T>::name; }
  // text streams follow their own locale by convention, the others must not
  bool any_locale() const override { return !std::is_same<T, bwsl::RationalNum<int>>::value && !std::is_same<T, bwsl::RationalNum<long>>::value; }
};

static std::unique_ptr<Script>
make(u64 k)
{
  switch (k % 17) {
    case 0: return std::make_unique<Of<acc::KahanAccumulator>>();
    case 1: return std::make_unique<Of<acc::NeumaierAccumulator>>();
    case 2: return std::make_unique<Of<acc::KnuthWelfordAccumulator>>();
    case 3: return std::make_unique<Of<acc::WestAccumulator>>();
    case 4: return std::make_unique<Of<bwsl::NaiveInteger>>();
    case 5: return std::make_unique<Of<bwsl::HistAccumulator>>();
    case 6: return std::make_unique<Of<bwsl::montecarlo::MoveStats>>();
    case 7: return std::make_unique<Of<bwsl::ObservableGroup<std::string>>>();
    case 8: return std::make_unique<Of<bwsl::ObservableGroup<int>>>();
    case 9: return std::make_unique<Of<bwsl::RationalNum<int>>>();
    case 10: return std::make_unique<Of<bwsl::RationalNum<long>>>();
    case 11: return std::make_unique<Of<bwsl::LinSpace<double>>>();
    case 12: return std::make_unique<Of<bwsl::LogSpace<double>>>();
    case 13: return std::make_unique<Of<Grid>>();
    case 14: return std::make_unique<Of<Bravais>>();
    case 15: return std::make_unique<Of<Lattice>>();
    default: return std::make_unique<Of<Free>>();
  }
}

/// The scripts of a case, from its choices.
static std::vector<std::unique_ptr<Script>>
draw(Ctx& c)
{
  std::vector<std::unique_ptr<Script>> v;
  u64 same = c.below(17);
  const bool alike = c.coin();
  for (size_t n = 2 + c.below(4); n > 0; n--) {
    v.push_back(make(alike ? same : c.below(17)));
    Script& s = *v.back();
    s.first = draw_op(c);
    for (u64 k = c.below(c.coin(1, 4) ? 40 : 12); k > 0; k--) {
      s.ops.push_back(draw_op(c));
      s.asked.push_back(c.coin(1, 3));
    }
    c.sigs(s.name());
  }
  return v;
}
using Trace = std::vector<std::string>;
static Trace
alone(Script& s)
{
  Trace t{ s.start() };
  for (size_t i = 0; i < s.ops.size(); i++) t.push_back(s.step(i));
  t.push_back(s.ask());
  s.stop();
  return t;
}
static void
same(Script& s, Trace const& a, Trace const& b, const char* key, const char* how)
{
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    auto const &x = a[i], &y = b[i];
    if (x == y) continue;
    size_t k = 0;
    while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
    k = k > 60 ? k - 60 : 0;
    VF_CHECK(false, key, "%s, step %zu: alone ...%.250s, %s ...%.250s", s.name(), i, x.substr(k).c_str(), how, y.substr(k).c_str());
  }
  VF_CHECK(a.size() == b.size(), key, "%s: %zu steps alone, %zu %s", s.name(), a.size(), b.size(), how);
}

struct Comma : std::numpunct<char>
{
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\2"; }
  std::string do_truename() const override { return "vrai"; }
};

// ------------------------------------------------------- a pristine process
// The keeper is forked before this process has used the library; each request
// (a state of the choice source, and the number of a script) is answered by a
// child of the keeper that has not used it either.
static int g_to = -1, g_from = -1;
static void
write_all(int fd, const void* p, size_t n)
{
  auto q = static_cast<const char*>(p);
  while (n > 0) {
    auto k = ::write(fd, q, n);
    if (k <= 0) _exit(0);
    q += k;
    n -= static_cast<size_t>(k);
  }
}
static bool
read_all(int fd, void* p, size_t n)
{
  auto q = static_cast<char*>(p);
  while (n > 0) {
    auto k = ::read(fd, q, n);
    if (k <= 0) return false;
    q += k;
    n -= static_cast<size_t>(k);
  }
  return true;
}
static void
keeper()
{
  if (g_to >= 0) return;
  int a[2], b[2];
  if (::pipe(a) || ::pipe(b)) std::abort();
  pid_t p = ::fork();
  if (p == 0) {
    ::close(a[1]);
    ::close(b[0]);
    u64 q[2];
    while (read_all(a[0], q, sizeof q)) {
      pid_t w = ::fork();
      if (w == 0) {
        ::alarm(60);
        Ctx c;
        c.state = q[0];
        std::string out;
        try {
          auto v = draw(c);
          for (auto& s : alone(*v[q[1]])) out += s + '\0';
        } catch (...) {
          out = "failed";
          out += '\0';
        }
        u64 n = out.size();
        write_all(b[1], &n, sizeof n);
        write_all(b[1], out.data(), n);
        _exit(0);
      }
      int st = 0;
      ::waitpid(w, &st, 0);
      if (!WIFEXITED(st)) {
        u64 n = 5;
        write_all(b[1], &n, sizeof n);
        write_all(b[1], "died\0", 5);
      }
    }
    _exit(0);
  }
  ::close(a[0]);
  ::close(b[1]);
  g_to = a[1];
  g_from = b[0];
}
static Trace
pristine(u64 state, u64 k)
{
  u64 q[2] = { state, k }, n = 0;
  write_all(g_to, q, sizeof q);
  if (!read_all(g_from, &n, sizeof n)) throw std::runtime_error("no answer from the keeper");
  std::string s(n, '\0');
  if (!read_all(g_from, &s[0], n)) throw std::runtime_error("no answer from the keeper");
  Trace t;
  for (size_t i = 0; i < s.size();) {
    t.emplace_back(s.c_str() + i);
    i += t.back().size() + 1;
  }
  return t;
}

void
run_case(Ctx& c)
{
  if (!c.fuzzing()) keeper();
  c.nontrivial = true;
  const u64 state = c.state;
  auto v = draw(c);
  std::string names;
  for (auto& s : v) names += std::string(s->name()) + ", ";
  c.note("%s", names.c_str());
  std::vector<Trace> ref;
  for (auto& s : v) {
    ref.push_back(alone(*s));
    VF_EV(s->name());
  }
  // in a process that has done nothing before
  if (!c.fuzzing() && c.coin(1, 3)) {
    size_t k = c.below(v.size());
    same(*v[k], pristine(state, k), ref[k], "pristine", "after other uses of the library");
  }
  // again, backwards, in the same process
  if (c.coin(1, 3))
    for (size_t k = v.size(); k-- > 0;) same(*v[k], ref[k], alone(*v[k]), "repeated", "when repeated");

  // all of them at once
  std::vector<Trace> got(v.size());
  std::vector<size_t> at(v.size(), 0);
  std::list<std::unique_ptr<Script>> noise;
  auto guest = [&](u64 kind) {
    noise.push_back(make(kind));
    Script& s = *noise.back();
    s.first = draw_op(c);
    for (u64 k = c.below(6); k > 0; k--) {
      s.ops.push_back(draw_op(c));
      s.asked.push_back(1);
    }
    s.start();
    for (size_t i = 0; i < s.ops.size(); i++) s.step(i);
    if (noise.size() > 6) {
      auto it = noise.begin();
      std::advance(it, static_cast<long>(c.below(noise.size())));
      noise.erase(it);
    }
    VF_EV("guests");
  };
  for (auto& s : v) {
    bool over = c.coin();
    s->place(over, draw_op(c));
    if (over) VF_EV("over_a_corpse");
  }
  auto perform = [&](std::function<std::string()> const& f, bool loc) {
    std::string r;
    const bool other = loc && c.coin(1, 5), thr = c.coin(1, 12);
    std::locale old;
    if (other) {
      static const std::locale comma(std::locale::classic(), new Comma);
      old = std::locale::global(comma);
      VF_EV("other_locale");
    }
    std::exception_ptr e;
    auto g = [&] {
      try {
        r = f();
      } catch (...) {
        e = std::current_exception();
      }
    };
    if (thr) {
      std::thread t(g);
      t.join();
      VF_EV("other_thread");
    } else
      g();
    if (other) std::locale::global(old);
    if (e) std::rethrow_exception(e);
    return r;
  };
  for (;;) {
    std::vector<size_t> open;
    for (size_t k = 0; k < v.size(); k++)
      if (at[k] < v[k]->ops.size() + 2) open.push_back(k);
    if (open.empty()) break;
    size_t k = c.pick(open);
    Script& s = *v[k];
    if (at[k] == 0)
      got[k].push_back(perform([&] { return s.start(); }, s.any_locale()));
    else if (at[k] <= s.ops.size())
      got[k].push_back(perform([&] { return s.step(at[k] - 1); }, s.any_locale()));
    else
      got[k].push_back(s.ask());
    at[k]++;
    // questions between the operations, to this one and to others
    for (int n = static_cast<int>(c.below(3)); n > 0; n--) {
      size_t j = c.coin() ? k : c.below(v.size());
      if (at[j] == 0) continue;
      auto x = perform([&] { return v[j]->ask(); }, v[j]->any_locale()), y = v[j]->ask();
      VF_CHECK(x == y, "asked_twice", "%s answers %.250s, and asked again %.250s", v[j]->name(), x.c_str(), y.c_str());
    }
    if (c.coin(1, 4)) guest(c.below(17));
  }
  for (size_t k = 0; k < v.size(); k++) same(*v[k], ref[k], got[k], "undisturbed", "among others");
}
