// dumpmt prints the exact state of the generator for every seed.
#include "vf.hpp"
#include <fcntl.h>
#include <poll.h>
#include <random>
#include <set>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
extern char** environ;

struct Run
{
  std::string out, err;
  int status = -1;
};
static Run
run(std::vector<std::string> const& args)
{
  const char* exe = std::getenv(VF_SAN ? "VF_DUMPMT_SAN" : "VF_DUMPMT_REL");
  Run r;
  int o[2], e[2];
  if (::pipe2(o, O_CLOEXEC) != 0 || ::pipe2(e, O_CLOEXEC) != 0) throw std::runtime_error("pipe");
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, o[1], 1);
  posix_spawn_file_actions_adddup2(&fa, e[1], 2);
  std::vector<char*> av;
  std::string a0 = "dumpmt";
  av.push_back(&a0[0]);
  for (auto const& a : args) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  pid_t p;
  int rc = posix_spawn(&p, exe, &fa, nullptr, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  ::close(o[1]);
  ::close(e[1]);
  if (rc != 0) throw std::runtime_error("spawn");
  pollfd pf[2] = { { o[0], POLLIN, 0 }, { e[0], POLLIN, 0 } };
  char buf[65536];
  int open = 2;
  while (open > 0) {
    ::poll(pf, 2, -1);
    for (int i = 0; i < 2; i++)
      if (pf[i].fd >= 0 && pf[i].revents) {
        ssize_t n = ::read(pf[i].fd, buf, sizeof buf);
        if (n <= 0) {
          pf[i].fd = -1;
          open--;
        } else if ((i ? r.err : r.out).size() < (1u << 20))
          (i ? r.err : r.out).append(buf, static_cast<size_t>(n));
      }
  }
  ::close(o[0]);
  ::close(e[0]);
  while (::waitpid(p, &r.status, 0) < 0) {}
  return r;
}

/// The 64-bit Mersenne Twister from its published definition.
struct Twister
{
  u64 x[312];
  int i = 312;
  explicit Twister(u64 seed)
  {
    x[0] = seed;
    for (u64 k = 1; k < 312; k++) x[k] = 6364136223846793005ULL * (x[k - 1] ^ (x[k - 1] >> 62)) + k;
  }
  u64 next()
  {
    if (i == 312) {
      for (int k = 0; k < 312; k++) {
        u64 y = (x[k] & 0xFFFFFFFF80000000ULL) | (x[(k + 1) % 312] & 0x7FFFFFFFULL);
        x[k] = x[(k + 156) % 312] ^ (y >> 1) ^ ((y & 1) ? 0xB5026F5AA96619E9ULL : 0);
      }
      i = 0;
    }
    u64 y = x[i++];
    y ^= (y >> 29) & 0x5555555555555555ULL;
    y ^= (y << 17) & 0x71D67FFFEDA60000ULL;
    y ^= (y << 37) & 0xFFF7EEE000000000ULL;
    return y ^ (y >> 43);
  }
};

static u64
some_seed(Ctx& c)
{
  switch (c.below(8)) {
    case 0: {
      static const u64 e[] = { 0, 1, 2, 5489, 9223372036854775807ULL, 9223372036854775808ULL, 18446744073709551615ULL, 18446744073709551614ULL, 4294967295ULL, 4294967296ULL, 4294967297ULL, 2147483647, 2147483648ULL, 10, 1000000007 };
      return c.pick(e);
    }
    case 1: return 1ULL << c.below(64);
    case 2: return (1ULL << c.below(64)) - 1;
    case 3: return c.below(1000);
    case 4: return ~c.below(1000);
    default: return c.bits64() >> c.below(64);
  }
}

static void
crash_free(Run const& r, const char* arg)
{
  VF_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) != 98, "clean_exit", "with %s: status %d, %.300s", arg, r.status, r.err.c_str());
}

void
run_case(Ctx& c)
{
  if (c.coin(1, 40)) {
    Run r = run({});
    crash_free(r, "no argument");
    VF_CHECK(WEXITSTATUS(r.status) != 0, "missing.failure", "without an argument it exits successfully");
    VF_CHECK(r.out.empty(), "missing.silent", "without an argument it prints %.100s", r.out.c_str());
    c.sig(1);
    return;
  }
  c.nontrivial = true;
  u64 seed = some_seed(c);
  std::string t = std::to_string(seed);
  if (c.coin(1, 10)) t = std::string(1 + c.below(c.coin() ? 3 : 300), '0') + t; // still the same decimal number
  c.sig(seed);
  c.note("seed %s", t.c_str());
  Run r = run({ t });
  crash_free(r, t.c_str());
  VF_CHECK(WEXITSTATUS(r.status) == 0, "success", "with seed %s it exits with %d", t.c_str(), WEXITSTATUS(r.status));
  Twister w(seed);
  std::ostringstream o;
  for (u64 v : w.x) o << v << ' ';
  o << 312 << '\n';
  std::string want = o.str();
  if (r.out != want) {
    // a library may write its states differently: ask it
    std::ostringstream q;
    q << std::mt19937_64(seed) << '\n';
    want = q.str();
  }
  VF_CHECK(r.out == want, "state", "with seed %s it prints %zu bytes, %.80s..., should be %zu, %.80s...", t.c_str(), r.out.size(), r.out.c_str(), want.size(), want.c_str());
  std::istringstream in(r.out);
  std::mt19937_64 g(c.bits64());
  in >> g;
  VF_CHECK(!in.fail(), "readable", "the state printed for seed %s cannot be read", t.c_str());
  for (int i = 0; i < 700; i++) {
    u64 a = g(), b = w.next();
    VF_CHECK(a == b, "continues", "seed %s: number %d after reading the state is %llu, should be %llu", t.c_str(), i, (unsigned long long)a, (unsigned long long)b);
  }
  if (seed > 0x7fffffffffffffffULL) VF_EV("seed.upper_half");
  if (seed > 0xffffffffULL) VF_EV("seed.wide");
}
