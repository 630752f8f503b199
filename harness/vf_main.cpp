// Driver of a harness: runs a range of cases, or one fuzzer input.
#include "vf.hpp"

#include <csignal>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <typeinfo>
#include <unistd.h>

namespace vf {
static std::vector<std::string>* g_samples;
static std::string
esc(std::string const& s)
{
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += static_cast<char>(ch);
  }
  return o;
}
/// Runs one case; returns true if it held.
static bool
guarded(Ctx& c, Violation& v)
{
  try {
    run_case(c);
    return true;
  } catch (Violation const& e) {
    v = e;
  } catch (std::bad_alloc const&) {
    // memory exhaustion says nothing about the property by itself, but a
    // workload that fits on the unchanged tree fits anywhere
    v = { "exception.bad_alloc", "std::bad_alloc escaped" };
  } catch (std::exception const& e) {
    v = { std::string("exception.") + typeid(e).name(),
          std::string("unexpected exception: ") + e.what() };
  }
  return false;
}
} // namespace vf

#ifdef VF_FUZZ
extern "C" int
LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
  static const uint8_t none = 0;
  vf::Ctx c;
  c.data = data ? data : &none;
  c.size = size;
  c.idx = ~0ULL;
  vf::Violation v;
  if (!vf::guarded(c, v)) {
    std::fprintf(stderr, "VF-VIOLATION key=%s msg=%s case=%s\n", v.key.c_str(),
                 vf::esc(v.msg).c_str(), vf::esc(c.desc).c_str());
    std::abort();
  }
  return 0;
}
#else
static volatile vf::u64 g_case;
static int g_progress = -1;
static void
on_alarm(int)
{
  // a single case ran for far longer than any case of the unchanged tree
  const char m[] = "VF-HANG\n";
  if (write(2, m, sizeof m - 1) < 0) {}
  _exit(97);
}

int
main(int ac, char** av)
{
  vf::u64 seed = 1, from = 0, to = 1;
  unsigned per_case = 60;
  bool thorough = false;
  std::string out, progress;
  std::time_t deadline = 0, first_viol = 0;
  unsigned nviol = 0;
  for (int i = 1; i + 1 < ac; i += 2) {
    std::string k = av[i], val = av[i + 1];
    if (k == "--seed") seed = std::strtoull(val.c_str(), nullptr, 10);
    else if (k == "--from") from = std::strtoull(val.c_str(), nullptr, 10);
    else if (k == "--to") to = std::strtoull(val.c_str(), nullptr, 10);
    else if (k == "--out") out = val;
    else if (k == "--progress") progress = val;
    else if (k == "--alarm") per_case = static_cast<unsigned>(std::atoi(val.c_str()));
    else if (k == "--deadline") deadline = std::strtoll(val.c_str(), nullptr, 10);
    else if (k == "--thorough") thorough = val == "1";
  }
  if (!progress.empty())
    g_progress = open(progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  std::signal(SIGALRM, on_alarm);

  struct Rec { vf::Violation v; vf::u64 idx; std::string desc; };
  std::vector<Rec> viol;
  std::map<std::string, int> perkey;
  std::vector<std::string> samples;
  std::unordered_set<vf::u64> sigs;
  vf::u64 evals = 0;

  for (vf::u64 i = from; i < to; i++) {
    g_case = i;
    if (g_progress >= 0) {
      vf::u64 x = i;
      if (pwrite(g_progress, &x, sizeof x, 0) < 0) {}
    }
    alarm(per_case);
    vf::Ctx c;
    c.seed = seed;
    c.idx = i;
    c.thorough = thorough;
    c.state = vf::mix64(vf::mix64(seed) ^ (i * 0x9e3779b97f4a7c15ULL + 12345));
    vf::Violation v;
    bool ok = vf::guarded(c, v);
    evals++;
    if (c.nontrivial)
      sigs.insert(c.sighash);
    if (ok) {
      if (samples.size() < 3 && c.nontrivial && !c.desc.empty())
        samples.push_back(c.desc);
    } else {
      if (perkey[v.key]++ < 3)
        viol.push_back({ v, i, c.desc });
      nviol++;
      if (!first_viol)
        first_viol = std::time(nullptr);
    }
    if (nviol >= 200 || (first_viol && std::time(nullptr) > first_viol + 20))
      break;
    if (deadline && std::time(nullptr) >= deadline) {
      if (i + 1 < to)
        vf::events()["stopped.at.deadline"]++;
      break;
    }
  }
  alarm(0);

  std::string o = "{\"evaluations\":" + std::to_string(evals) + ",\"events\":{";
  bool first = true;
  for (auto const& e : vf::events()) {
    o += (first ? "\"" : ",\"") + vf::esc(e.first) + "\":" + std::to_string(e.second);
    first = false;
  }
  o += "},\"samples\":[";
  first = true;
  for (auto const& s : samples) {
    o += (first ? "\"" : ",\"") + vf::esc(s) + "\"";
    first = false;
  }
  o += "],\"violations\":[";
  first = true;
  for (auto const& r : viol) {
    o += std::string(first ? "" : ",") + "{\"key\":\"" + vf::esc(r.v.key) + "\",\"msg\":\"" +
         vf::esc(r.v.msg) + "\",\"case\":" + std::to_string(r.idx) + ",\"desc\":\"" +
         vf::esc(r.desc) + "\"}";
    first = false;
  }
  o += "]}\n";
  if (!out.empty()) {
    FILE* f = std::fopen(out.c_str(), "w");
    if (!f) return 96;
    std::fwrite(o.data(), 1, o.size(), f);
    std::fclose(f);
    f = std::fopen((out + ".sig").c_str(), "wb");
    if (!f) return 96;
    for (auto s : sigs)
      std::fwrite(&s, sizeof s, 1, f);
    std::fclose(f);
  } else
    std::fputs(o.c_str(), stdout);
  return 0;
}
#endif
