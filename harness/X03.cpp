// Errors are standard exceptions whose messages last.
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include "vf_obj.hpp"
#include <bwsl/EnumString.hpp>
#include <bwsl/Exceptions.hpp>
#include <bwsl/RNGUtils.hpp>
#include <bwsl/accumulators/AccumulatorsExceptions.hpp>
#include <functional>
#include <memory>
#include <thread>
using namespace vf;

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(X03Planet, (Mercury)(Venus)(Earth))
namespace deep::er {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Second, (One)(Two))
}

static std::string
random_text(Ctx& c)
{
  static const char alphabet[] = "abcXYZ 0129_-{}%:/\\\"'\n\t\x80\xff";
  std::string s;
  for (u64 n = c.below(c.coin(1, 5) ? 700 : 30); n > 0; n--) s += alphabet[c.below(sizeof alphabet - 1)];
  return s;
}

/// The message of e, which must not depend on what happened since.
static std::string
message(std::exception const& e)
{
  const char* a = e.what();
  VF_CHECK(a != nullptr && *a != 0, "message", "an exception without a message");
  std::string s = a;
  const char* b = e.what();
  VF_CHECK(s == b, "message.stable", "asked twice, the message is %.200s and %.200s", s.c_str(), b);
  return s;
}
static void
churn(Ctx& c, Op const& p)
{
  // reuse whatever memory was released
  std::vector<std::string> v;
  for (u64 n = c.below(20); n > 0; n--) v.push_back(std::string(c.below(400), 'q'));
  bwsl::montecarlo::MoveStats m(std::string(c.below(100), 'z'));
  Obj<bwsl::montecarlo::MoveStats>::op(m, p, "");
}
static void
holds(std::string const& m, std::string const& part, const char* what)
{
  VF_CHECK(m.find(part) != std::string::npos, "message.names", "%s: the message %.250s does not contain %.250s", what, m.c_str(), part.c_str());
}

/// An error that f raises, caught in every way; parts must be in the message.
template<class E>
static void
raised(Ctx& c, const char* what, std::function<void()> const& f, std::vector<std::string> const& parts, std::function<void()> const& another)
{
  static_assert(std::is_base_of<std::exception, E>::value && std::is_copy_constructible<E>::value, "");
  c.sigs(what);
  Op p = draw_op(c);
  std::string m;
  std::unique_ptr<E> copy;
  bool thrown = false;
  try {
    f();
  } catch (E const& e) {
    thrown = true;
    std::exception const& base = e;
    m = message(base);
    for (auto const& x : parts) holds(m, x, what);
    copy.reset(new E(e));
  } catch (std::exception const& e) {
    VF_CHECK(false, "kind", "%s: another exception, %.200s", what, e.what());
  } catch (...) {
    VF_CHECK(false, "kind", "%s: something that is not an exception", what);
  }
  VF_CHECK(thrown, "thrown", "%s: no error", what);
  churn(c, p);
  // copies outlive what was caught
  auto same = [&](std::exception const& e, const char* how) {
    auto x = message(e);
    VF_CHECK(x == m, "message.lasts", "%s, %s: the message %.250s became %.250s", what, how, m.c_str(), x.c_str());
  };
  same(*copy, "copied");
  // the text itself stays, whatever other errors of its kind say meanwhile
  {
    const char* text = copy->what();
    try {
      another();
    } catch (E const& e) {
      auto x = message(e);
      VF_CHECK(m == text, "message.own", "%s: the message %.250s became %.250s when another error said %.250s", what, m.c_str(), text, x.c_str());
      std::thread([&] { (void)message(E(e)); }).join();
    }
    VF_CHECK(m == text, "message.own", "%s: the message %.250s became %.250s after another error", what, m.c_str(), text);
  }
  E second(*copy);
  copy.reset();
  churn(c, p);
  same(second, "copied from a copy that is gone");
  E third(std::move(second));
  same(third, "moved");
  if constexpr (std::is_copy_assignable<E>::value) {
    E const& t = third;
    second = t;
    third = E(second);
    same(second, "assigned");
    same(third, "assigned from a temporary");
    E& self = third;
    third = self;
    same(third, "assigned to itself");
  }
  // carried around as a pointer, also to another thread
  std::exception_ptr ep;
  try {
    f();
  } catch (...) {
    ep = std::current_exception();
  }
  churn(c, p);
  auto again = [&](const char* how) {
    try {
      std::rethrow_exception(ep);
    } catch (std::exception const& e) {
      same(e, how);
      try {
        throw;
      } catch (std::exception& x) {
        same(x, "thrown again");
      }
    }
  };
  again("kept as a pointer");
  if (c.coin(1, 8)) {
    std::exception_ptr inner;
    std::thread t([&] {
      try {
        again("on another thread");
      } catch (...) {
        inner = std::current_exception();
      }
    });
    t.join();
    if (inner) std::rethrow_exception(inner);
    VF_EV("other_thread");
  }
  try {
    try {
      f();
    } catch (...) {
      std::throw_with_nested(std::runtime_error("outer"));
    }
  } catch (std::exception const& e) {
    try {
      std::rethrow_if_nested(e);
    } catch (std::exception const& x) {
      same(x, "nested");
    }
  }
  churn(c, p);
  again("kept for long");
  VF_EV(what);
}

void
run_case(Ctx& c)
{
  using namespace bwsl::montecarlo;
  c.nontrivial = true;
  const auto text = random_text(c);
  c.sigs(text);
  c.note("text of %zu characters, ", text.size());
  // what() is text up to a NUL, none is drawn
  switch (c.below(9)) {
    case 0: {
      auto f = [&] {
        X03Planet p = Venus;
        auto t = std::make_unique<std::string>("?" + text);
        FromString(p, *t);
      };
      raised<EnumStringConversionFailed_X03Planet>(c, "enum", f, { "?" + text, "X03Planet" }, [] {
        X03Planet p = Venus;
        FromString(p, "other");
      });
      break;
    }
    case 1: {
      auto f = [&] {
        deep::er::Second s = deep::er::One;
        deep::er::FromString(s, text + "?");
      };
      raised<deep::er::EnumStringConversionFailed_Second>(c, "enum_in_namespace", f, { text + "?", "Second" }, [] {
        deep::er::Second s = deep::er::One;
        deep::er::FromString(s, "another one");
      });
      break;
    }
    case 2: {
      bool second = c.coin();
      auto f = [&] {
        auto m = std::make_unique<MoveStats>(text);
        if (second) {
          m->Propose();
          m->Propose();
        } else
          m->Accept(0.5);
      };
      raised<exception::MoveInvalidSequence>(c, "move_sequence", f, { text }, [] { MoveStats("other").Accept(0.5); });
      break;
    }
    case 3: {
      auto f = [&] {
        MoveStats m(text);
        m.Add(MoveResult::Reject(0.1));
        c.coin() ? m.Reject(0.25) : m.Impossible();
      };
      raised<exception::MoveInvalidSequence>(c, "move_outcome", f, { text }, [] { MoveStats("other").Impossible(); });
      break;
    }
    case 4: {
      double p = c.coin() ? -1.5 : 1.0 + static_cast<double>(c.below(8)) / 4;
      char b[32];
      std::snprintf(b, sizeof b, "%g", p);
      raised<exception::InvalidProbability>(c, "probability", [&] { throw exception::InvalidProbability(p); }, { b }, [] { throw exception::InvalidProbability(77.125); });
      break;
    }
    case 5: {
      bool in_int = c.coin();
      auto f = [&] {
        bwsl::RationalNum<int> a(1, 2);
        bwsl::RationalNum<long> b(1, 2);
        if (in_int) bwsl::FromString("x" + text, a);
        else bwsl::FromString("x" + text, b);
      };
      raised<bwsl::exception::BadParsing>(c, "rational", f, {}, f);
      break;
    }
    case 6:
      raised<bwsl::exception::AccumulatorOverflow>(c, "overflow", [&] { throw bwsl::exception::AccumulatorOverflow(); }, {}, [] { throw bwsl::exception::AccumulatorOverflow(); });
      break;
    case 7: {
      auto f = [&] {
        auto g = std::make_unique<bwsl::ObservableGroup<std::string>>(scratch_dir() + "/unused.csv", std::vector<std::string>{ "known" });
        g->Measure("?" + text, 1.0);
      };
      raised<std::out_of_range>(c, "observable", f, {}, [] { bwsl::ObservableGroup<int>("unused.csv", { 1 }).Measure(2, 1.0); });
      break;
    }
    default: {
      std::string ar;
      {
        std::ostringstream o;
        {
          boost::archive::text_oarchive a(o);
          std::mt19937 g(static_cast<unsigned>(c.bits64()));
          a << static_cast<std::mt19937 const&>(g);
        }
        ar = o.str();
      }
      // a letter inside the text of the state
      size_t at = ar.size() - 40;
      ar[at] = 'x';
      auto f = [&] {
        std::istringstream i(ar);
        boost::archive::text_iarchive a(i);
        std::mt19937 g;
        a >> g;
      };
      raised<std::invalid_argument>(c, "generator", f, {}, f);
      break;
    }
  }
}
