// Output that cannot be written is harmless.
//
// A group of observables (or a lattice) writes to a path that is unusable for
// some time; a twin with the same history always writes to a good file.  The
// calls return, nothing appears anywhere, and as soon as the path is usable
// the outputs are those of the twin.
#include "vf_obj.hpp"
#include <algorithm>
#include <dirent.h>
#include <optional>
#include <sys/stat.h>
using namespace vf;

static std::string
read_file(std::string const& p)
{
  std::ifstream f(p, std::ios::binary);
  if (!f) return "(none)";
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
/// Names, kinds and contents of everything below a directory.
static std::string
tree(std::string const& d)
{
  std::vector<std::string> names;
  if (DIR* h = ::opendir(d.c_str())) {
    while (auto* e = ::readdir(h)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") names.push_back(n);
    }
    ::closedir(h);
  }
  std::sort(names.begin(), names.end());
  std::string r;
  for (auto const& n : names) {
    struct stat s;
    std::string p = d + "/" + n;
    if (::lstat(p.c_str(), &s)) continue;
    r += n + (S_ISDIR(s.st_mode) ? "/ {" + tree(p) + "} " : " [" + read_file(p) + "] ");
  }
  return r;
}
static void
wipe(std::string const& d)
{
  if (DIR* h = ::opendir(d.c_str())) {
    while (auto* e = ::readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = d + "/" + n;
      struct stat s;
      if (!::lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) wipe(p);
      else ::unlink(p.c_str());
    }
    ::closedir(h);
  }
  ::rmdir(d.c_str());
}

/// A path that can be made unusable and usable again.
struct Path
{
  // everything a confused writer could fall back to is below watch
  std::string watch = scratch_dir() + "/watch", cwd = watch + "/cwd", root = watch + "/bad", path;
  int kind;
  explicit Path(Ctx& c)
    : kind(static_cast<int>(c.below(6)))
  {
    wipe(watch);
    ::mkdir(watch.c_str(), 0755);
    ::mkdir(cwd.c_str(), 0755);
    if (::chdir(cwd.c_str())) std::abort();
    for (auto v : { "TMPDIR", "TMP", "TEMP", "HOME" }) ::setenv(v, cwd.c_str(), 1);
    ::mkdir(root.c_str(), 0755);
    switch (kind) {
      case 0: path = root + "/missing/file.csv"; break;
      case 1: path = root + "/place"; break;                 // a directory
      case 2: path = root + "/file/under"; break;            // below a plain file
      case 3: path = "/dev/full"; break;                     // no space, for ever
      case 4: path = root + "/" + std::string(300, 'x'); break; // name too long, for ever
      default: path = root + "/loop"; break;                 // link to itself
    }
    if (kind != 3 && c.coin(1, 3)) path = "../bad" + path.substr(root.size());
    spoil();
  }
  ~Path()
  {
    if (::chdir("/")) std::abort();
    wipe(watch);
  }
  bool can_heal() const { return kind != 3 && kind != 4; }
  void spoil()
  {
    clear();
    if (kind == 1) ::mkdir(path.c_str(), 0755);
    if (kind == 2) {
      std::ofstream f(root + "/file");
      f << "untouched\n";
    }
    if (kind == 5 && ::symlink("loop", path.c_str())) {}
  }
  void heal()
  {
    clear();
    if (kind == 0) ::mkdir((root + "/missing").c_str(), 0755);
    if (kind == 2) ::mkdir((root + "/file").c_str(), 0755);
  }
  void clear()
  {
    wipe(root);
    ::mkdir(root.c_str(), 0755);
  }
};
static const char* const KINDS[] = { "missing_directory", "directory", "below_file", "full_device", "long_name", "loop" };

template<class K>
static K
key(long i)
{
  if (i < 30) return Obj<bwsl::ObservableGroup<K>>::key(i);
  if constexpr (std::is_same<K, std::string>::value)
    return "key " + std::to_string(i);
  else
    return static_cast<K>(i);
}
template<class K>
static void
group(Ctx& c)
{
  using G = bwsl::ObservableGroup<K>;
  Path bad(c);
  auto const good = scratch_dir() + "/good.csv";
  ::unlink(good.c_str());
  std::vector<K> keys;
  // sometimes more than a stream can hold back
  const bool wide = c.coin(1, 6);
  const long top = wide ? 90 : 30;
  for (u64 n = wide ? 40 + c.below(40) : c.below(5); n > 0; n--) keys.push_back(key<K>(c.in(0, top)));
  G g = keys.empty() ? G(bad.path) : G(bad.path, keys), twin = keys.empty() ? G(good) : G(good, keys);
  c.note("group on %s: ", KINDS[bad.kind]);
  c.sig(static_cast<u64>(bad.kind));
  bool usable = false;
  int written = 0;
  for (u64 n = 4 + c.below(40); n > 0; n--) {
    u64 what = c.below(10);
    long i = c.in(0, top);
    double x = c.real();
    c.sig(what);
    c.sigd(x);
    if (what < 5) {
      bool r = false, t = false;
      try { g.Measure(key<K>(i), x); } catch (std::out_of_range const&) { r = true; }
      try { twin.Measure(key<K>(i), x); } catch (std::out_of_range const&) { t = true; }
      VF_CHECK(r == t, "measure", "after failed outputs a measurement is %s, without them %s", r ? "refused" : "taken", t ? "refused" : "taken");
    } else if (what == 5) {
      g.AddObservable(key<K>(i));
      twin.AddObservable(key<K>(i));
    } else if (what < 9) {
      const bool row = what != 6;
      if (wide && c.coin()) // a row longer than the buffer of the stream
        for (auto const& k : keys) {
          double y = c.real();
          g.Measure(k, y);
          twin.Measure(k, y);
        }
      const size_t prec = c.coin(1, wide ? 2 : 8) ? 400 : 3 + c.below(15);
      auto before = usable ? std::string() : tree(bad.watch);
      ::unlink(good.c_str());
      if (usable) ::unlink(bad.path.c_str());
      try {
        row ? g.PrintAndReset(prec) : g.PrintHeaders();
      } catch (std::exception const& e) {
        VF_CHECK(false, "returns", "output to an unusable path (%s) throws %s", KINDS[bad.kind], e.what());
      }
      row ? twin.PrintAndReset(prec) : twin.PrintHeaders();
      if (usable) {
        auto a = read_file(bad.path), b = read_file(good);
        VF_CHECK(a == b, "after_repair", "once the path is usable: %.250s, a group whose outputs never failed writes %.250s", a.c_str(), b.c_str());
        if (row) written++;
      } else {
        auto now = tree(bad.watch);
        VF_CHECK(now == before, "harmless", "output to an unusable path (%s) changed %.250s to %.250s", KINDS[bad.kind], before.c_str(), now.c_str());
        VF_EV(KINDS[bad.kind]);
        c.nontrivial = true;
      }
    } else if (bad.can_heal()) {
      usable = !usable;
      usable ? bad.heal() : bad.spoil();
    }
  }
  // a copy shows what the group still holds
  ::unlink(good.c_str());
  G a(good), b(good);
  if (bad.can_heal()) {
    bad.heal();
    g.PrintAndReset(17);
    twin.PrintAndReset(17);
    auto x = read_file(bad.path), y = read_file(good);
    VF_CHECK(x == y, "after_repair", "in the end: %.250s, a group whose outputs never failed writes %.250s", x.c_str(), y.c_str());
  }
  ::unlink(good.c_str());
}

static void
lattice(Ctx& c)
{
  Path bad(c);
  Op p = draw_op(c);
  Lattice l = Obj<Lattice>::fresh(p);
  if (l.GetNumSites() == 0) return;
  c.sig(static_cast<u64>(bad.kind) + 100);
  c.note("lattice of %zu sites on %s", l.GetNumSites(), KINDS[bad.kind]);
  auto const was = Obj<Lattice>::query(l), before = tree(bad.watch);
  auto save = [&](u64 k, std::string const& f) {
    switch (k) {
      case 0: l.SavePositions(f); break;
      case 1: l.SaveDistances(f); break;
      case 2: l.SaveMomenta(f); break;
      default: l.SavePairs(f); break;
    }
  };
  for (u64 k = 0; k < 4; k++) {
    try {
      save(k, bad.path);
    } catch (std::exception const& e) {
      VF_CHECK(false, "returns", "table %llu to an unusable path (%s) throws %s", static_cast<unsigned long long>(k), KINDS[bad.kind], e.what());
    }
    auto now = tree(bad.watch);
    VF_CHECK(now == before, "harmless", "table %llu to an unusable path (%s) changed %.250s to %.250s", static_cast<unsigned long long>(k), KINDS[bad.kind], before.c_str(), now.c_str());
    VF_EV(KINDS[bad.kind]);
  }
  auto const is = Obj<Lattice>::query(l);
  VF_CHECK(is == was, "lattice.unchanged", "after failed tables the lattice answers %.250s, before %.250s", is.c_str(), was.c_str());
  if (bad.can_heal()) {
    bad.heal();
    auto const good = scratch_dir() + "/good.csv";
    for (u64 k = 0; k < 4; k++) {
      save(k, bad.path);
      save(k, good);
      auto a = read_file(bad.path), b = read_file(good);
      VF_CHECK(a == b && a != "(none)", "lattice.after_repair", "table %llu once the path is usable: %.250s, elsewhere %.250s", static_cast<unsigned long long>(k), a.c_str(), b.c_str());
    }
    ::unlink(good.c_str());
  }
  c.nontrivial = true;
}

void
run_case(Ctx& c)
{
  switch (c.below(5)) {
    case 0:
    case 1: group<std::string>(c); break;
    case 2: group<int>(c); break;
    default: lattice(c); break;
  }
}
