// Move statistics follow the propose/outcome protocol.
#include "vf_num.hpp"
#include <bwsl/MonteCarloUtils.hpp>
using namespace vf;
using bwsl::montecarlo::MoveResult;
using bwsl::montecarlo::MoveStats;
using bwsl::montecarlo::MoveStatus;

struct Ref
{
  std::string name = "Unknown";
  bool pending = false;
  u64 n = 0, acc = 0, rej = 0, imp = 0, outcomes = 0;
  ExactSum p;
  f128 abs = 0;
};

static std::string
snapshot(MoveStats const& s)
{
  char b[300];
  double p = s.GetAverageProbability();
  std::snprintf(b, sizeof b, "%a %a %a %a", s.GetAcceptedRatio(), s.GetRejectedRatio(), s.GetImpossibleRatio(), std::isnan(p) ? 0.0 : p);
  return b;
}
static void
ratio(const char* what, double got, u64 k, u64 n)
{
  f128 e = static_cast<f128>(k) / static_cast<f128>(n);
  if (!near(got, e, 2 * U * e)) fail(what, "%llu of %llu proposals give the ratio %.17g", (unsigned long long)k, (unsigned long long)n, got);
}

static void
observe(MoveStats const& s, Ref const& r)
{
  VF_CHECK(s.GetName() == r.name, "name", "the name is '%s', should be '%s'", s.GetName().c_str(), r.name.c_str());
  if (r.n == 0) {
    VF_CHECK(s.GetAcceptedRatio() == 0.0, "no_proposals", "the accepted ratio of no proposals is %.17g", s.GetAcceptedRatio());
    return;
  }
  VF_EV("ratios");
  ratio("ratio.accepted", s.GetAcceptedRatio(), r.acc, r.n);
  ratio("ratio.rejected", s.GetRejectedRatio(), r.rej, r.n);
  ratio("ratio.impossible", s.GetImpossibleRatio(), r.imp, r.n);
  if (r.outcomes > 0) {
    f128 N = static_cast<f128>(r.outcomes), e = r.p.value() / N;
    VF_CHECK(near(s.GetAverageProbability(), e, (6 * U + 4 * N * N * U * U) * r.abs / N + 1e-310), "probability", "average probability %.17g, exactly %.17g of %llu outcomes", s.GetAverageProbability(), static_cast<double>(e), (unsigned long long)r.outcomes);
  }
}
/// the four numbers of the printed form, in the order of their labels
static void
printed(MoveStats const& s, Ref const& r)
{
  if (r.outcomes == 0) return;
  std::ostringstream o;
  o << s;
  std::string t = o.str();
  VF_CHECK(t.find(r.name) != std::string::npos, "print.name", "'%s' does not show the name '%s'", t.c_str(), r.name.c_str());
  std::string rest = t.substr(t.find(r.name) + r.name.size());
  const char* labels[] = { "accepted", "rejected", "impossible", "probability" };
  double v[] = { s.GetAcceptedRatio(), s.GetRejectedRatio(), s.GetImpossibleRatio(), s.GetAverageProbability() };
  for (int i = 0; i < 4; i++) {
    size_t at = rest.find(labels[i]);
    double x = std::nan("");
    if (at != std::string::npos) {
      at = rest.find_first_of("0123456789-+.n", at + std::strlen(labels[i]));
      if (at != std::string::npos) x = std::strtod(rest.c_str() + at, nullptr);
    }
    double tol = 0.5000001e-3 * std::fabs(v[i]) + 1e-300;
    VF_CHECK(std::fabs(x - v[i]) <= tol, "print.value", "'%s' shows %g as %s, which is %.17g", t.c_str(), x, labels[i], v[i]);
  }
}

/// billions of moves; mostly of one outcome, which differs between the laps
static void
far(Ctx& c)
{
  MoveStats s("long");
  u64 n[3] = { 0, 0, 0 };
  const u64 main_ = c.lap();
  const u64 stops[] = { (1ULL << 24) + 1, (1ULL << 31) + 1, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 32) + 1000 };
  u64 total = 0;
  for (u64 stop : stops) {
    // mostly the main outcome; its own count passes the stop
    while (n[main_] < stop) {
      u64 k = (total & 0xfffff) == 5 ? (main_ + 1) % 3 : (total & 0xfffff) == 9 ? (main_ + 2) % 3 : main_;
      s.Propose();
      if (k == 0) s.Accept(0.5);
      else if (k == 1) s.Reject(0.5);
      else s.Impossible();
      n[k]++;
      total++;
    }
    VF_EV("far.ratios");
    ratio("far.ratio.accepted", s.GetAcceptedRatio(), n[0], total);
    ratio("far.ratio.rejected", s.GetRejectedRatio(), n[1], total);
    ratio("far.ratio.impossible", s.GetImpossibleRatio(), n[2], total);
    f128 e = static_cast<f128>(n[0] + n[1]) / 2 / static_cast<f128>(total);
    VF_CHECK(near(s.GetAverageProbability(), e, 8 * U * e), "far.probability", "average probability %.17g, exactly %.17g of %llu outcomes", s.GetAverageProbability(), static_cast<double>(e), (unsigned long long)total);
  }
  c.note("%llu moves", (unsigned long long)total);
  c.nontrivial = true;
}

void
run_case(Ctx& c)
{
  if (c.marathon()) return far(c);
  const char* names[] = { "worm", "", "a move", "swap {} 12", "%d", "accepted = 5" };
  Ref r;
  MoveStats s;
  if (c.coin(4, 5)) {
    r.name = c.pick(names);
    if (c.coin(1, 8)) r.name = std::string(c.below(300), 'q');
    s = MoveStats(r.name);
  }
  c.note("'%.30s' ", r.name.c_str());
  int steps = static_cast<int>(c.below(c.fuzzing() ? 60 : c.coin(1, 30) ? 3000 : 80));
  bool mostly_legal = c.coin(2, 3);
  observe(s, r);
  int style = static_cast<int>(c.below(5));
  for (int k = 0; k < steps; k++) {
    double p = style == 4 ? 2 * c.unit() - 1 : style == 0 ? c.unit() : style == 1 ? static_cast<double>(c.below(3)) / 2 : style == 2 ? std::ldexp(c.unit(), -static_cast<int>(c.below(60))) : c.coin(1, 10) ? c.unit() * 50 : 0.1;
    u64 op = c.below(16);
    if (mostly_legal && op < 14 && c.coin(9, 10)) {
      if (r.pending) op = 3 + op % 3;
      else if (op >= 3 && op < 6) op = 0;
    }
    c.sig(op);
    bool legal = true;
    auto before = snapshot(s);
    std::string what;
    bool thrown = false;
    auto doit = [&](auto&& f) {
      try {
        f();
      } catch (bwsl::montecarlo::exception::MoveInvalidSequence const& e) {
        thrown = true;
        what = e.what();
      }
    };
    auto outcome = [&](u64& n, double q) {
      r.pending = false;
      n++;
      r.outcomes++;
      r.p.add(q);
      r.abs += std::fabs(q);
    };
    if (op < 3) {
      legal = !r.pending;
      doit([&] { s.Propose(); });
      if (legal) {
        r.pending = true;
        r.n++;
      }
    } else if (op < 6) {
      legal = r.pending;
      doit([&] { op == 3 ? s.Accept(p) : op == 4 ? s.Reject(p) : s.Impossible(); });
      if (legal) outcome(op == 3 ? r.acc : op == 4 ? r.rej : r.imp, op == 5 ? 0.0 : p);
    } else if (op < 12) {
      legal = !r.pending;
      MoveResult m = op == 6 ? MoveResult::Accept(p) : op == 7 ? MoveResult::Reject(p) : op == 8 ? MoveResult::Impossible() : op == 9 ? MoveResult(MoveStatus::Accepted, p) : op == 10 ? MoveResult(MoveStatus::Rejected, p) : MoveResult();
      bool A = op == 6 || op == 9, R = op == 7 || op == 10, I = !A && !R;
      VF_CHECK(m.IsAccepted() == A && m.IsRejected() == R && m.IsImpossible() == I, "result", "a result of kind %llu answers %d %d %d", (unsigned long long)op, m.IsAccepted(), m.IsRejected(), m.IsImpossible());
      VF_CHECK(m.GetStatus() == (A ? MoveStatus::Accepted : R ? MoveStatus::Rejected : MoveStatus::Impossible), "result", "wrong status of a result of kind %llu", (unsigned long long)op);
      VF_CHECK(same_bits(m.Probability(), I ? 0.0 : p), "result", "a result with probability %.17g returns %.17g", p, m.Probability());
      MoveResult m2(m), m3;
      m3 = m2;
      doit([&] { s.Add(m3); });
      if (legal) {
        r.n++;
        outcome(A ? r.acc : R ? r.rej : r.imp, I ? 0.0 : p);
        VF_EV("results_added");
      }
    } else if (op == 12) {
      // an impossible result may carry any probability: it counts as zero
      legal = !r.pending;
      doit([&] { s.Add(MoveResult(MoveStatus::Impossible, p)); });
      if (legal) {
        r.n++;
        outcome(r.imp, 0.0);
      }
    } else if (op == 13) {
      printed(s, r);
      continue;
    } else if (op == 14) {
      if (!c.coin(1, 6)) continue;
      s.Reset();
      std::string n = r.name;
      r = Ref{};
      r.name = n;
      VF_EV("resets");
      VF_CHECK(snapshot(s) == snapshot(MoveStats(n)), "reset", "after reset: %s, new: %s", snapshot(s).c_str(), snapshot(MoveStats(n)).c_str());
      observe(s, r);
      continue;
    } else {
      observe(s, r);
      continue;
    }
    VF_CHECK(thrown == !legal, legal ? "legal" : "illegal", "%s operation %llu %s (%llu proposals, %s)", legal ? "legal" : "illegal", (unsigned long long)op, thrown ? "throws" : "does not throw", (unsigned long long)r.n, r.pending ? "pending" : "not pending");
    if (!legal) {
      VF_CHECK(what.find(r.name) != std::string::npos, "message", "the error '%s' does not name '%s'", what.c_str(), r.name.c_str());
      VF_CHECK(snapshot(s) == before, "unchanged", "an illegal operation changes the statistics from %s to %s", before.c_str(), snapshot(s).c_str());
    }
    observe(s, r);
  }
  printed(s, r);
  if (r.n > 1) c.nontrivial = true;
}
