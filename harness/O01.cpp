// Observable files hold exactly one row of means per output interval.
#include "vf_num.hpp"
#include <bwsl/ObservableGroup.hpp>
#include <fstream>
#include <memory>
#include <unistd.h>
using namespace vf;

static std::string
dir()
{
  const char* s = std::getenv("VF_SCRATCH");
  return s ? s : "/tmp";
}
static bool
slurp(std::string const& p, std::string& r)
{
  std::ifstream f(p, std::ios::binary);
  if (!f) return false;
  std::stringstream s;
  s << f.rdbuf();
  r = s.str();
  return true;
}
static std::string
show(std::string const& k)
{
  return k;
}
static std::string
show(long k)
{
  return std::to_string(k);
}
template<class K>
static K
key(Ctx& c)
{
  if constexpr (std::is_same<K, std::string>::value) {
    const char* fixed[] = { "energy", "Energy", "energy2", "m", "", "zz", "a b", "10", "9", "{}", "{:d}", "%s" };
    if (c.coin(1, 6)) return std::string(static_cast<size_t>(c.below(40)), static_cast<char>('a' + c.below(3)));
    return fixed[c.below(12)];
  } else
    return static_cast<K>(c.coin(1, 6) ? c.spread(31) : c.in(-3, 12));
}

struct Interval
{
  ExactSum s;
  f128 abs = 0;
  u64 n = 0;
  bool wild = false; // an infinity or no number among the values
};

/// one printed mean: the requested digits and the right value
static void
mean_ok(std::string const& t, Interval const& v, size_t prec, std::string const& k)
{
  if (v.n == 0) {
    VF_CHECK(t.find("nan") != std::string::npos, "mean.empty", "the mean of no values of '%s' is printed as %s", k.c_str(), t.c_str());
    return;
  }
  if (v.wild) {
    char* end;
    double got = std::strtod(t.c_str(), &end);
    VF_CHECK(*end == 0 && !t.empty() && !std::isfinite(got), "mean.wild", "the mean of '%s', with a value that is not finite, is printed as %s", k.c_str(), t.c_str());
    VF_EV("wild_means");
    return;
  }
  size_t i = t.size() > 0 && t[0] == '-' ? 1 : 0;
  size_t d0 = i;
  while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++;
  bool form = i == d0 + 1;
  size_t frac = 0;
  if (prec > 0) {
    form = form && i < t.size() && t[i] == '.';
    i++;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++, frac++;
  }
  form = form && frac == prec && i + 3 < t.size() && t[i] == 'e' && (t[i + 1] == '+' || t[i + 1] == '-');
  VF_CHECK(form, "mean.format", "the mean of '%s' is printed as '%s', not with %zu digits", k.c_str(), t.c_str(), prec);
  char* end;
  double got = std::strtod(t.c_str(), &end);
  VF_CHECK(*end == 0, "mean.format", "the mean of '%s' is printed as '%s'", k.c_str(), t.c_str());
  f128 N = static_cast<f128>(v.n);
  f128 exact = v.s.value() / N;
  f128 mag = fabsq_(exact);
  f128 tol = (4 * U * v.abs + 4 * N * N * U * U * v.abs) / N;
  f128 unit = 1; // of the last printed digit
  for (size_t j = 0; j < prec; j++) unit /= 10;
  tol += (mag + tol) * unit * static_cast<f128>(0.5000001) + 4 * U * mag + 1e-310;
  VF_CHECK(near(got, exact, tol), "mean.value", "the mean of %llu values of '%s' is printed as %s, exactly %.17g", (unsigned long long)v.n, k.c_str(), t.c_str(), static_cast<double>(exact));
}

template<class K>
struct Side
{
  std::string path;
  std::string content; // what the file must hold
  bool exists = false;
  std::map<K, Interval> ref;
  std::unique_ptr<bwsl::ObservableGroup<K>> g;

  void start(Ctx& c, int i)
  {
    path = dir() + "/obs" + std::to_string(i) + ".csv";
    ::unlink(path.c_str());
    if (c.coin(1, 3)) { // something is already there
      std::ofstream f(path);
      content = c.coin(1, 4) ? "" : "old,row\n1,2\nno newline";
      if (c.coin()) content += "\n" + std::string(c.below(5000), 'x') + "\n";
      f << content;
      exists = true;
    }
    if (c.coin(1, 3))
      g = std::make_unique<bwsl::ObservableGroup<K>>(path);
    else {
      std::vector<K> ks;
      size_t n = c.below(c.coin(1, 30) ? 200 : 6);
      bool many = !c.fuzzing() && c.coin(1, VF_SAN ? 500 : 150);
      if (many) {
        n = 500 + c.below(3000);
        VF_EV("many_keys");
      }
      for (size_t j = 0; j < n; j++) {
        if (!many) ks.push_back(key<K>(c));
        else if constexpr (std::is_same<K, std::string>::value) ks.push_back("observable" + std::to_string(c.below(100000)));
        else ks.push_back(static_cast<K>(c.spread(31)));
        ref.emplace(ks.back(), Interval());
      }
      g = std::make_unique<bwsl::ObservableGroup<K>>(path, ks);
      c.note("%zu keys; ", ref.size());
    }
    same_file("construction");
  }
  void same_file(const char* after)
  {
    std::string now;
    bool there = slurp(path, now);
    VF_CHECK(there == exists && now == content, "file", "after %s the file holds '%.200s' (%zu bytes), should be '%.200s' (%zu bytes)", after, now.c_str(), now.size(), content.c_str(), content.size());
  }
  void step(Ctx& c)
  {
    u64 op = c.below(24);
    c.sig(op);
    if (op < 3) {
      K k = key<K>(c);
      bool known = ref.count(k) > 0;
      auto& r = g->AddObservable(k);
      VF_CHECK(&r == g.get(), "chain", "AddObservable does not return the group");
      if (known) VF_EV("registered_twice");
      else ref.emplace(k, Interval());
      same_file("AddObservable");
    } else if (op < 19) {
      K k = key<K>(c);
      if (!ref.empty() && c.coin(7, 8)) {
        auto it = ref.begin();
        std::advance(it, static_cast<long>(c.below(ref.size())));
        k = it->first;
      }
      int m = 1 + static_cast<int>(c.coin(1, 6) ? c.below(40) : 0);
      for (int i = 0; i < m; i++) {
        const double wild[] = { std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan("") };
        double x = c.coin(1, 60) ? c.pick(wild) : c.coin(1, 5) ? c.real(1, 200) : c.coin(1, 6) ? (i % 2 ? -1e17 : 1e17) + c.unit() : c.real();
        c.sigd(x);
        auto it = ref.find(k);
        bool thrown = false;
        try {
          g->Measure(k, x);
        } catch (std::exception const&) {
          thrown = true;
        }
        VF_CHECK(thrown == (it == ref.end()), "unknown_key", "measuring the %s key '%s' %s", it == ref.end() ? "unknown" : "registered", show(k).c_str(), thrown ? "throws" : "does not throw");
        if (thrown) VF_EV("refused");
        if (it != ref.end()) {
          if (std::isfinite(x)) {
            it->second.s.add(x);
            it->second.abs += std::fabs(x);
          } else
            it->second.wild = true;
          it->second.n++;
        }
      }
      if (c.coin(1, 8)) same_file("Measure");
    } else if (op < 21) {
      g->PrintHeaders();
      content.clear();
      for (auto const& p : ref) content += show(p.first) + ",";
      content += "Count\n";
      exists = true;
      VF_EV("headers");
      same_file("PrintHeaders");
    } else {
      size_t prec = 10;
      bool dflt = c.coin(1, 4);
      if (!dflt) prec = c.coin(1, 4) ? c.below(30) : c.coin(1, 12) ? c.below(700) : c.below(17);
      if (dflt) g->PrintAndReset();
      else g->PrintAndReset(prec);
      std::string now;
      VF_CHECK(slurp(path, now), "row", "PrintAndReset leaves no file");
      VF_CHECK(now.size() > content.size() && now.compare(0, content.size(), content) == 0, "append", "PrintAndReset changes the former content of %zu bytes (%zu bytes now)", content.size(), now.size());
      std::string row = now.substr(content.size());
      VF_CHECK(row.back() == '\n' && row.find('\n') == row.size() - 1, "row", "PrintAndReset writes '%.200s', not one line", row.c_str());
      row.pop_back();
      std::vector<std::string> f(1);
      for (char ch : row) {
        if (ch == ',') f.emplace_back();
        else f.back() += ch;
      }
      VF_CHECK(f.size() == ref.size() + 1, "columns", "a row of %zu columns for %zu observables: '%.200s'", f.size(), ref.size(), row.c_str());
      size_t i = 0;
      for (auto const& p : ref) mean_ok(f[i++], p.second, prec, show(p.first));
      u64 n = ref.empty() ? 0 : ref.begin()->second.n;
      VF_CHECK(f.back() == std::to_string(n), "row.count", "the row ends with the count %s, should be %llu", f.back().c_str(), (unsigned long long)n);
      if (ref.empty()) VF_EV("empty_group");
      for (auto& p : ref) p.second = Interval();
      content = now;
      exists = true;
    }
  }
};

void
run_case(Ctx& c)
{
  int steps = 1 + static_cast<int>(c.below(c.fuzzing() ? 40 : c.coin(1, 20) ? 300 : 60));
  Side<std::string> a, a2;
  Side<int> b;
  a.start(c, 0);
  a2.start(c, 1); // groups on different files do not disturb each other
  b.start(c, 2);
  for (int k = 0; k < steps; k++) {
    switch (c.below(3)) {
      case 0: a.step(c); break;
      case 1: a2.step(c); break;
      default: b.step(c); break;
    }
  }
  a.same_file("all operations");
  a2.same_file("all operations");
  b.same_file("all operations");
  if (steps > 3) c.nontrivial = true;
  ::unlink(a.path.c_str());
  ::unlink(a2.path.c_str());
  ::unlink(b.path.c_str());
}
