// A restored checkpoint continues exactly like the original.
#include "vf_num.hpp"
#include <bwsl/Accumulators.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/RNGUtils.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#include <fstream>
#include <locale>
#include <memory>
#include <unistd.h>
using namespace vf;
namespace acc = bwsl::accumulators;
namespace ba = boost::archive;

static std::string
hx(double d)
{
  if (std::isnan(d)) return "nan ";
  char b[64];
  std::snprintf(b, sizeof b, "%a ", d);
  return b;
}
static std::string
hx(u64 v)
{
  return std::to_string(v) + " ";
}
static std::string
dir()
{
  const char* s = std::getenv("VF_SCRATCH");
  return s ? s : "/tmp";
}
static std::string
slurp_remove(std::string const& p)
{
  std::ifstream f(p, std::ios::binary);
  if (!f) return "(none)";
  std::stringstream s;
  s << f.rdbuf();
  f.close();
  ::unlink(p.c_str());
  return s.str();
}

struct Op
{
  int code;
  double x, w;
  long l;
};
static const char* KEYS[] = { "energy", "m", "a key with spaces", "", "Z,1", "density" };

struct Obj
{
  virtual ~Obj() = default;
  virtual const char* name() const = 0;
  virtual std::unique_ptr<Obj> fresh(Op const&) const = 0; // another object, of any initial shape
  virtual std::string op(Op const&) = 0;                   // what the operation showed
  virtual std::string query() = 0;
  virtual void save(ba::text_oarchive&) const = 0;
  virtual void save(ba::binary_oarchive&) const = 0;
  virtual void load(ba::text_iarchive&) = 0;
  virtual void load(ba::binary_iarchive&) = 0;
};
#define ARCHIVES                                                               \
  void save(ba::text_oarchive& a) const override { a << o; }                   \
  void save(ba::binary_oarchive& a) const override { a << o; }                 \
  void load(ba::text_iarchive& a) override { a >> o; }                         \
  void load(ba::binary_iarchive& a) override { a >> o; }

static std::string
more(acc::KahanAccumulator const&)
{
  return "";
}
static std::string
more(acc::NeumaierAccumulator const&)
{
  return "";
}
static std::string
more(acc::KnuthWelfordAccumulator const& a)
{
  return hx(a.Variance(true)) + hx(a.Variance(false)) + hx(a.ScaledVariance()) + hx(a.StandardDeviation(true)) + hx(a.Error(true)) + hx(a.Error(false));
}
static std::string
more(acc::WestAccumulator const& a)
{
  return hx(a.PopulationVariance()) + hx(a.SampleFrequencyVariance()) + hx(a.SampleReliabilityVariance());
}
static std::string
more(bwsl::NaiveInteger const& a)
{
  return hx(a.Variance(true)) + hx(a.Variance(false)) + hx(a.ScaledVariance());
}
template<class A>
struct AccObj : Obj
{
  A o{};
  const char* name() const override { return std::is_same<A, acc::KahanAccumulator>::value ? "Kahan" : std::is_same<A, acc::NeumaierAccumulator>::value ? "Neumaier" : std::is_same<A, acc::KnuthWelfordAccumulator>::value ? "KnuthWelford" : std::is_same<A, acc::WestAccumulator>::value ? "West" : "NaiveInteger"; }
  std::unique_ptr<Obj> fresh(Op const&) const override { return std::make_unique<AccObj<A>>(); }
  std::string op(Op const& p) override
  {
    if (p.code == 0) {
      o.Reset();
      return "";
    }
    if constexpr (std::is_same<A, acc::WestAccumulator>::value)
      o.Add(p.x, p.w);
    else if constexpr (std::is_same<A, bwsl::NaiveInteger>::value)
      o.Add(p.l);
    else
      o.Add(p.x);
    return "";
  }
  std::string query() override
  {
    // averages of nothing are left to their own properties
    return hx(static_cast<u64>(o.Count())) + hx(static_cast<double>(o.Sum())) + (o.Count() ? hx(o.Mean()) : std::string()) + more(o);
  }
  ARCHIVES
};
struct HistObj : Obj
{
  bwsl::HistAccumulator o{};
  const char* name() const override { return "histogram"; }
  std::unique_ptr<Obj> fresh(Op const& p) const override
  {
    auto r = std::make_unique<HistObj>();
    if (p.code % 2) r->o = bwsl::HistAccumulator(static_cast<size_t>(std::labs(p.l) % 20));
    return r;
  }
  std::string op(Op const& p) override
  {
    size_t i = static_cast<size_t>(std::labs(p.l) % 23);
    if (p.code == 0)
      o.Reset();
    else if (p.code == 1)
      o.Resize(i);
    else if (p.code < 5)
      o.ForceAdd(i, p.x);
    else if (o.GetNbins() > 0)
      o.Add(i % o.GetNbins(), p.x);
    return "";
  }
  std::string query() override
  {
    auto s = hx(static_cast<u64>(o.GetNbins())) + hx(static_cast<u64>(o.GetCount()));
    for (double v : o.GetResults()) s += hx(v);
    for (size_t i = 0; i < o.GetNbins(); i++) s += hx(o.GetResult(i)) + hx(static_cast<u64>(o.GetCount(i)));
    return s;
  }
  ARCHIVES
};
struct MoveObj : Obj
{
  bwsl::montecarlo::MoveStats o{};
  const char* name() const override { return "move statistics"; }
  std::unique_ptr<Obj> fresh(Op const& p) const override
  {
    auto r = std::make_unique<MoveObj>();
    if (p.code % 3) r->o = bwsl::montecarlo::MoveStats(KEYS[std::labs(p.l) % 6]);
    return r;
  }
  std::string op(Op const& p) override
  {
    using R = bwsl::montecarlo::MoveResult;
    try {
      switch (p.code) {
        case 0: o.Reset(); break;
        case 1:
        case 2:
        case 3: o.Propose(); break;
        case 4: o.Accept(p.w); break;
        case 5: o.Reject(p.w); break;
        case 6: o.Impossible(); break;
        case 7: o.Add(R::Accept(p.w)); break;
        case 8: o.Add(R::Reject(p.w)); break;
        default: o.Add(R::Impossible()); break;
      }
    } catch (std::exception const& e) {
      return std::string("refused: ") + e.what();
    }
    return "";
  }
  std::string query() override
  {
    std::ostringstream s;
    s << o.GetName() << "|" << hx(o.GetAcceptedRatio()) << hx(o.GetRejectedRatio()) << hx(o.GetImpossibleRatio()) << hx(o.GetAverageProbability());
    s << o;
    return s.str();
  }
  ARCHIVES
};
template<class K>
static K
key(long i)
{
  if constexpr (std::is_same<K, std::string>::value)
    return KEYS[std::labs(i) % 6];
  else
    return static_cast<K>(i % 6 - 2);
}
template<class K>
struct GroupObj : Obj
{
  bwsl::ObservableGroup<K> o{};
  const char* name() const override { return std::is_same<K, std::string>::value ? "observables (text)" : "observables (int)"; }
  static std::string file(int i) { return dir() + (i ? "/second obs.csv" : "/obs.csv"); }
  std::unique_ptr<Obj> fresh(Op const& p) const override
  {
    auto r = std::make_unique<GroupObj<K>>();
    if (p.code % 3 == 0) return r;
    std::vector<K> k;
    for (int i = 0; i < std::labs(p.l) % 5; i++) k.push_back(key<K>(p.l / 5 + 2 * i));
    r->o = bwsl::ObservableGroup<K>(file(p.code % 2), k);
    return r;
  }
  std::string op(Op const& p) override
  {
    try {
      if (p.code < 2) {
        ::unlink(file(0).c_str());
        ::unlink(file(1).c_str());
        if (p.code == 0)
          o.PrintAndReset(17);
        else
          o.PrintHeaders();
        return slurp_remove(file(0)) + "|" + slurp_remove(file(1));
      }
      if (p.code < 4)
        o.AddObservable(key<K>(p.l));
      else
        o.Measure(key<K>(p.l), p.x);
    } catch (std::out_of_range const&) {
      return "refused";
    }
    return "";
  }
  std::string query() override { return ""; } // printing is an operation here
  ARCHIVES
};
using MtSmall = std::mersenne_twister_engine<uint32_t, 32, 351, 175, 19, 0xccab8ee7, 11, 0xffffffff, 7, 0x31b6ab00, 15, 0xffe50000, 17, 1812433253>;
template<class G>
struct GenObj : Obj
{
  G o{};
  const char* name() const override { return std::is_same<G, std::mt19937>::value ? "mt19937" : std::is_same<G, std::mt19937_64>::value ? "mt19937_64" : "mt11213b"; }
  std::unique_ptr<Obj> fresh(Op const& p) const override
  {
    auto r = std::make_unique<GenObj<G>>();
    if (p.code % 2) r->o.seed(static_cast<typename G::result_type>(p.l));
    return r;
  }
  std::string op(Op const& p) override
  {
    switch (p.code) {
      case 0: o.seed(static_cast<typename G::result_type>(p.l)); return "";
      case 1: o.discard(static_cast<unsigned long long>(std::labs(p.l) % 1500)); return "";
      case 2: return hx(std::uniform_real_distribution<double>(0, 1)(o));
      default: return hx(static_cast<u64>(o()));
    }
  }
  std::string query() override
  {
    G c(o);
    std::string s;
    for (int i = 0; i < 3; i++) s += hx(static_cast<u64>(c()));
    c.discard(G::state_size - 5);
    for (int i = 0; i < 5; i++) s += hx(static_cast<u64>(c()));
    return s;
  }
  ARCHIVES
};

/// The state of a whole program: objects in containers, behind pointers, and
/// one of them reached along two ways.
struct Program
{
  std::mt19937_64 rng{ 1 };
  std::vector<bwsl::montecarlo::MoveStats> moves{ bwsl::montecarlo::MoveStats("shift") };
  std::map<std::string, acc::KnuthWelfordAccumulator> means{};
  std::vector<bwsl::HistAccumulator> hists{};
  std::unique_ptr<bwsl::ObservableGroup<std::string>> obs{};
  std::shared_ptr<acc::WestAccumulator> weighted{ new acc::WestAccumulator }, alias{};
  std::pair<acc::KahanAccumulator, bwsl::NaiveInteger> both{};

  template<class Archive>
  void serialize(Archive& ar, unsigned)
  {
    ar & moves & rng & hists & means & obs & alias & weighted & both;
  }
};
struct ProgObj : Obj
{
  Program o{};
  const char* name() const override { return "program"; }
  std::unique_ptr<Obj> fresh(Op const& p) const override
  {
    auto r = std::make_unique<ProgObj>();
    if (p.code % 2) r->o.alias = r->o.weighted;
    if (p.code % 3) r->o.hists.resize(static_cast<size_t>(std::labs(p.l) % 4), bwsl::HistAccumulator(3));
    if (p.code % 5) r->o.moves.emplace_back(KEYS[std::labs(p.l) % 6]);
    return r;
  }
  std::string op(Op const& p) override
  {
    const auto u = static_cast<size_t>(std::labs(p.l));
    std::string r;
    switch (p.code) {
      case 0: o.moves.emplace_back(KEYS[u % 6]); break;
      case 1:
        o.hists.emplace_back(u % 5 + 1);
        if (o.hists.size() > 6) o.hists.erase(o.hists.begin());
        break;
      case 2:
        if (!o.obs) o.obs = std::make_unique<bwsl::ObservableGroup<std::string>>(dir() + "/prog.csv");
        o.obs->AddObservable(KEYS[u % 6]);
        break;
      case 3:
        if (o.obs) {
          ::unlink((dir() + "/prog.csv").c_str());
          o.obs->PrintAndReset(17);
          r = slurp_remove(dir() + "/prog.csv");
        }
        break;
      case 4:
        if (o.alias) o.alias.reset();
        else o.alias = o.weighted;
        break;
      default: { // a step of the simulation
        auto& m = o.moves[o.rng() % o.moves.size()];
        const double e = std::ldexp(static_cast<double>(o.rng() >> 11), -50) + p.x;
        using R = bwsl::montecarlo::MoveResult;
        m.Add(o.rng() % 3 ? R::Accept(p.w) : R::Reject(p.w));
        o.means[KEYS[o.rng() % 6]].Add(e);
        if (!o.hists.empty()) o.hists[o.rng() % o.hists.size()].ForceAdd(o.rng() % 20, e);
        o.weighted->Add(e, std::fabs(p.w));
        if (o.alias) o.alias->Add(1.0, 2.0); // seen through the other pointer
        o.both.first.Add(e);
        o.both.second.Add(p.l);
        try {
          if (o.obs) o.obs->Measure(KEYS[u % 6], e);
        } catch (std::out_of_range const&) {
          r = "refused";
        }
      }
    }
    return r;
  }
  std::string query() override
  {
    std::mt19937_64 c(o.rng);
    std::ostringstream s;
    s << c() << "|";
    for (auto const& m : o.moves) s << m.GetName() << m << hx(m.GetAverageProbability());
    for (auto const& [k, a] : o.means) s << k << hx(static_cast<u64>(a.Count())) << hx(a.Count() ? a.Mean() : 0.0) << hx(a.Count() > 1 ? a.Variance(true) : 0.0);
    for (auto const& h : o.hists) {
      s << "|" << hx(static_cast<u64>(h.GetCount()));
      for (double v : h.GetResults()) s << hx(v);
    }
    s << (o.obs ? "obs" : "none") << (o.alias == o.weighted) << hx(static_cast<u64>(o.weighted->Count())) << hx(o.weighted->Sum()) << hx(o.weighted->PopulationVariance());
    s << hx(o.both.first.Sum()) << hx(static_cast<u64>(o.both.second.Count())) << hx(static_cast<double>(o.both.second.Sum()));
    return s.str();
  }
  ARCHIVES
};

static std::unique_ptr<Obj>
make(int kind)
{
  switch (kind) {
    case 0: return std::make_unique<AccObj<acc::KahanAccumulator>>();
    case 1: return std::make_unique<AccObj<acc::NeumaierAccumulator>>();
    case 2: return std::make_unique<AccObj<acc::KnuthWelfordAccumulator>>();
    case 3: return std::make_unique<AccObj<acc::WestAccumulator>>();
    case 4: return std::make_unique<AccObj<bwsl::NaiveInteger>>();
    case 5: return std::make_unique<HistObj>();
    case 6: return std::make_unique<MoveObj>();
    case 7: return std::make_unique<GroupObj<std::string>>();
    case 8: return std::make_unique<GroupObj<int>>();
    case 9: return std::make_unique<GenObj<std::mt19937>>();
    case 10: return std::make_unique<GenObj<std::mt19937_64>>();
    case 12: return std::make_unique<ProgObj>();
    default: return std::make_unique<GenObj<MtSmall>>();
  }
}
static Op
draw(Ctx& c)
{
  Op p;
  p.code = static_cast<int>(c.below(10));
  if (p.code == 0 && c.coin(2, 3)) p.code = 9; // fewer resets
  p.x = c.coin(1, 4) ? c.real(1, 250) : c.real();
  p.w = c.coin(1, 8) ? -1.0 : c.unit();
  p.l = static_cast<long>(c.in(-100000, 100000));
  if (c.coin(1, 6)) p.l = static_cast<long>(c.in(-(1 << 22), 1 << 22));
  c.sig(static_cast<u64>(p.code));
  c.sigd(p.x);
  return p;
}

static void
damaged(Ctx& c)
{
  // the state text of a generator inside a text archive
  auto o = make(9 + static_cast<int>(c.below(3)));
  Op p = draw(c);
  p.code = 1;
  o->op(p);
  std::stringstream s;
  {
    ba::text_oarchive a(s);
    o->save(a);
  }
  std::string t = s.str();
  // the longest run of tokens after the length is the state; find it by length
  size_t best = std::string::npos, len = 0;
  for (size_t i = 0; i + 1 < t.size(); i++) {
    if (t[i] < '0' || t[i] > '9' || (i > 0 && t[i - 1] != ' ')) continue;
    size_t j = i;
    u64 v = 0;
    while (j < t.size() && t[j] >= '0' && t[j] <= '9' && j - i < 9) v = v * 10 + static_cast<u64>(t[j++] - '0');
    if (v > 1000 && j < t.size() && t[j] == ' ' && j + 1 + v <= t.size() && j + 1 + v + 2 >= t.size()) {
      best = i;
      len = v;
      break;
    }
  }
  if (best == std::string::npos) {
    VF_EV("damage.format_unknown");
    return;
  }
  size_t at = t.find(' ', best) + 1;
  std::string state = t.substr(at, len), head = t.substr(0, best), tail = t.substr(at + len);
  int how = static_cast<int>(c.below(6));
  if (how == 0)
    state = "";
  else if (how == 1) { // whole tokens missing at the end
    int k = 1 + static_cast<int>(c.below(c.coin() ? 3 : 300));
    while (k-- > 0) state.erase(state.find_last_of(' '));
  } else if (how == 2) { // one character that is no digit
    size_t i = c.below(state.size());
    const char bad[] = { 'x', '-', '.', ',', '/', '\t' };
    char b = c.pick(bad);
    if (b == '-' || b == '\t' || state[i] == ' ') b = 'x';
    // inside the last number the text before it may still be read
    size_t last = state.find_last_of(' ') + 1;
    state[i >= last ? last : i] = b;
  } else if (how == 3)
    state = std::string(state.size(), ' ');
  else if (how == 4)
    state = "not a state";
  else {
    state.insert(0, c.coin() ? "x " : "nan ");
  }
  std::string d = head + std::to_string(state.size()) + " " + state + tail;
  auto r = o->fresh(p);
  bool thrown = false;
  std::string what;
  std::istringstream in(d);
  try {
    ba::text_iarchive a(in);
    r->load(a);
  } catch (std::exception const& e) {
    thrown = true;
  }
  VF_CHECK(thrown, "damaged", "%s: a damaged state text (kind %d) is accepted", o->name(), how);
  // the same archive, undamaged, is accepted
  std::istringstream in2(t);
  ba::text_iarchive a2(in2);
  r->load(a2);
  VF_CHECK(r->query() == o->query(), "undamaged", "%s: loading after a refused archive gives another state", o->name());
}

/// a checkpoint after billions of operations
/// another global locale for a while (the streams of the archives keep theirs)
struct Comma : std::numpunct<char>
{
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\2"; }
  std::string do_truename() const override { return "vrai"; }
};
struct Abroad
{
  bool away;
  std::locale home;
  explicit Abroad(bool go)
    : away(go)
  {
    static const std::locale comma(std::locale::classic(), new Comma);
    if (away) {
      home = std::locale::global(comma);
      VF_EV("other_locale");
    }
  }
  ~Abroad()
  {
    if (away) std::locale::global(home);
  }
};

template<class O, class F>
static void
far(Ctx& c, F&& step)
{
  O a, b;
  u64 n = (1ULL << 32) + 3 + c.below(1000);
  for (u64 i = 0; i < n; i++) step(a.o, i);
  for (int text = 0; text < 2; text++) {
    std::stringstream f(std::ios::in | std::ios::out | std::ios::binary);
    auto before = a.query();
    if (text) {
      { ba::text_oarchive ar(f); a.save(ar); }
      ba::text_iarchive ar(f);
      b.load(ar);
    } else {
      { ba::binary_oarchive ar(f); a.save(ar); }
      ba::binary_iarchive ar(f);
      b.load(ar);
    }
    auto after = a.query();
    VF_CHECK(after == before, "save_pure", "%s after %llu operations: saving changes %.300s to %.300s", a.name(), (unsigned long long)n, before.c_str(), after.c_str());
    for (u64 i = 0; i < 50; i++) {
      auto x = a.query(), y = b.query();
      VF_CHECK(x == y, "far", "%s after %llu operations: saved %.300s, restored %.300s", a.name(), (unsigned long long)(n + i), x.c_str(), y.c_str());
      step(a.o, i);
      step(b.o, i);
    }
  }
  c.note("%s: %llu operations", a.name(), (unsigned long long)n);
  c.nontrivial = true;
}
static void
far_any(Ctx& c)
{
  auto plain = [](auto& o, u64 i) { o.Add(i & 1 ? 0.5 : 0.3); };
  switch (c.lap()) {
    case 0: return far<AccObj<acc::KahanAccumulator>>(c, plain);
    case 1: return far<AccObj<acc::NeumaierAccumulator>>(c, plain);
    case 2: return far<AccObj<acc::KnuthWelfordAccumulator>>(c, plain);
    case 3: return far<AccObj<acc::WestAccumulator>>(c, [](auto& o, u64 i) { o.Add(i & 1 ? 0.5 : 0.3, i & 1 ? 1.0 : 2.0); });
    case 4: return far<AccObj<bwsl::NaiveInteger>>(c, [](auto& o, u64 i) { o.Add((i & 15) == 3); });
    case 5: return far<HistObj>(c, [](auto& o, u64 i) { o.ForceAdd(i & 1, 0.5); });
    default: return far<MoveObj>(c, [](auto& o, u64 i) {
      o.Propose();
      (i & 0xff) == 7 ? o.Reject(0.25) : o.Accept(0.5);
    });
  }
}

void
run_case(Ctx& c)
{
  if (c.marathon()) return far_any(c);
  if (c.coin(1, 8)) {
    c.note("damaged generator text");
    damaged(c);
    c.nontrivial = true;
    c.sig(c.bits64());
    return;
  }
  size_t m = c.coin() ? 1 : 1 + c.below(6);
  std::vector<std::unique_ptr<Obj>> a, ref;
  int same = c.coin(1, 3) ? static_cast<int>(c.below(13)) : -1;
  for (size_t i = 0; i < m; i++) {
    int kind = same >= 0 ? same : static_cast<int>(c.below(13));
    c.sig(static_cast<u64>(kind));
    auto o = make(kind);
    Op p = draw(c);
    a.push_back(o->fresh(p));
    ref.push_back(o->fresh(p));
    c.note("%s, ", o->name());
  }
  int saves = 1 + static_cast<int>(c.below(4)), total = 0;
  for (int s = 0; s < saves; s++) {
    for (size_t i = 0; i < m; i++) {
      int n = static_cast<int>(c.coin(1, 4) ? 0 : c.below(30));
      total += n;
      for (int k = 0; k < n; k++) {
        Op p = draw(c);
        auto x = a[i]->op(p), y = ref[i]->op(p);
        VF_CHECK(x == y, "history", "%s: operation %d shows %s, on an object never saved %s", a[i]->name(), p.code, x.c_str(), y.c_str());
      }
    }
    // save all in one archive
    bool text = c.coin();
    std::stringstream f(std::ios::in | std::ios::out | std::ios::binary);
    std::vector<std::string> before;
    for (auto& o : a) {
      before.push_back(o->query());
      VF_EV(o->name());
    }
    auto abroad = std::make_unique<Abroad>(c.coin(1, 5));
    if (text) {
      ba::text_oarchive ar(f);
      for (auto& o : a) o->save(ar);
      VF_EV("saved.text");
    } else {
      ba::binary_oarchive ar(f);
      for (auto& o : a) o->save(ar);
      VF_EV("saved.binary");
    }
    abroad.reset();
    for (size_t i = 0; i < m; i++) {
      auto q = a[i]->query();
      VF_CHECK(q == before[i], "save_pure", "%s: saving changes %s to %s", a[i]->name(), before[i].c_str(), q.c_str());
    }
    // the original may go on after the checkpoint
    auto b = std::vector<std::unique_ptr<Obj>>();
    for (auto& o : a) {
      b.push_back(o->fresh(draw(c)));
      if (c.coin()) {
        int n = static_cast<int>(c.below(20));
        for (int k = 0; k < n; k++) b.back()->op(draw(c));
        VF_EV("dirty_target");
      } else
        VF_EV("fresh_target");
    }
    abroad = std::make_unique<Abroad>(c.coin(1, 5));
    if (text) {
      ba::text_iarchive ar(f);
      for (auto& o : b) o->load(ar);
    } else {
      ba::binary_iarchive ar(f);
      for (auto& o : b) o->load(ar);
    }
    abroad.reset();
    for (size_t i = 0; i < m; i++) {
      auto q = b[i]->query();
      VF_CHECK(q == before[i], "restored", "%s: saved %.300s and restored %.300s", a[i]->name(), before[i].c_str(), q.c_str());
      int n = static_cast<int>(c.below(25));
      for (int k = 0; k < n; k++) {
        Op p = draw(c);
        auto x = a[i]->op(p), y = b[i]->op(p);
        ref[i]->op(p);
        VF_CHECK(x == y, "continues", "%s: operation %d shows %.300s, after restoring %.300s", a[i]->name(), p.code, x.c_str(), y.c_str());
        x = a[i]->query();
        y = b[i]->query();
        VF_CHECK(x == y, "continues", "%s: after operation %d: %.300s, restored %.300s", a[i]->name(), p.code, x.c_str(), y.c_str());
      }
      total += n;
      if (c.coin()) a[i] = std::move(b[i]); // go on with the restored one
    }
  }
  if (total > 0) c.nontrivial = true;
}
