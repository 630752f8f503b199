// File comparison is true exactly for readable identical files.
#include "vf.hpp"
#include <bwsl/FileUtils.hpp>
#include <cerrno>
#include <fcntl.h>
#include <new>
#include <sys/stat.h>
#include <unistd.h>
using namespace vf;
#include <algorithm>

static std::string g_dir;

struct Image
{
  bool there = false, readable = false;
  struct stat st{};
  std::string bytes;
};
/// what a plain reader sees; keeps the bytes of files of reasonable size
static Image
look(std::string const& p, bool content = true)
{
  Image r;
  r.there = ::stat(p.c_str(), &r.st) == 0;
  int fd = ::open(p.c_str(), O_RDONLY);
  if (fd < 0) return r;
  r.readable = true;
  if (content && r.st.st_size < (64 << 20)) {
    char buf[65536];
    for (ssize_t n; (n = ::read(fd, buf, sizeof buf)) > 0;) r.bytes.append(buf, static_cast<size_t>(n));
  }
  ::close(fd);
  return r;
}
static void
put(std::string const& p, std::string const& s)
{
  ::unlink(p.c_str());
  int fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0) throw std::runtime_error("cannot write " + p);
  size_t at = 0;
  while (at < s.size()) {
    ssize_t n = ::write(fd, s.data() + at, s.size() - at);
    if (n <= 0) {
      ::close(fd);
      throw std::runtime_error("cannot write " + p);
    }
    at += static_cast<size_t>(n);
  }
  ::close(fd);
}
static bool
same_meta(struct stat const& a, struct stat const& b)
{
  return a.st_ino == b.st_ino && a.st_size == b.st_size && a.st_mode == b.st_mode && a.st_nlink == b.st_nlink && a.st_uid == b.st_uid && a.st_mtim.tv_sec == b.st_mtim.tv_sec && a.st_mtim.tv_nsec == b.st_mtim.tv_nsec && a.st_ctim.tv_sec == b.st_ctim.tv_sec && a.st_ctim.tv_nsec == b.st_ctim.tv_nsec;
}

static void
judge(std::string const& a, std::string const& b, const char* what)
{
  Image ia = look(a), ib = look(b);
  bool want = ia.readable && ib.readable && ia.bytes == ib.bytes;
  bool g1 = bwsl::compare_files(a, b);
  bool g2 = bwsl::compare_files(b, a);
  std::string d = std::string(what) + ": " + std::to_string(ia.bytes.size()) + (ia.readable ? "" : " (unreadable)") + " and " + std::to_string(ib.bytes.size()) + (ib.readable ? "" : " (unreadable)") + " bytes";
  size_t k = 0;
  while (k < ia.bytes.size() && k < ib.bytes.size() && ia.bytes[k] == ib.bytes[k]) k++;
  if (want) {
    VF_CHECK(g1, "identical", "%s: identical files compare different", d.c_str());
  } else if (!ia.readable || !ib.readable) {
    VF_CHECK(!g1, "unreadable", "%s: compare equal", d.c_str());
  } else
    VF_CHECK(!g1, "different", "%s, first difference at %zu: different files compare equal", d.c_str(), k);
  VF_CHECK(g1 == g2, "symmetric", "%s: %d, swapped %d", d.c_str(), g1, g2);
  Image ja = look(a), jb = look(b);
  VF_CHECK(ja.there == ia.there && jb.there == ib.there && (!ia.there || same_meta(ia.st, ja.st)) && (!ib.there || same_meta(ib.st, jb.st)), "untouched.metadata", "%s: a file was created, removed or its metadata changed", d.c_str());
  VF_CHECK(ja.bytes == ia.bytes && jb.bytes == ib.bytes, "untouched.bytes", "%s: a file was changed", d.c_str());
  VF_EV(what);
}

static std::string
content(Ctx& c, size_t n)
{
  std::string s(n, '\0');
  int style = static_cast<int>(c.below(7));
  u64 x = c.bits64();
  static const char special[] = { '\xff', '\0', '\n', '\r', '\x1a', '\xfe', '\t', ' ', 'a', '\x80' };
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) x = mix64(x + i);
    unsigned char b = static_cast<unsigned char>(x >> (8 * (i % 8)));
    switch (style) {
      case 0: s[i] = static_cast<char>(b); break;
      case 1: s[i] = static_cast<char>('a' + b % 26); break;
      case 2: s[i] = special[b % sizeof special]; break;
      case 3: s[i] = '\xff'; break;
      case 4: s[i] = '\0'; break;
      case 5: s[i] = b % 10 == 0 ? '\n' : static_cast<char>('0' + b % 10); break;
      default: s[i] = i % 2 ? '\n' : '\r'; break;
    }
  }
  return s;
}
static size_t
some_size(Ctx& c)
{
  static const size_t edges[] = { 0, 1, 2, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537 };
  if (c.fuzzing()) return c.below(9000);
  switch (c.below(8)) {
    case 0: return 0;
    case 1:
    case 2: return c.pick(edges);
    case 3: return c.coin(1, 15) ? c.below(3000000) : c.below(200000);
    case 4: return c.below(20000);
    default: return c.below(300);
  }
}
/// a name in the scratch directory, of any spelling
static std::string
spell(Ctx& c, const char* base)
{
  static const char* const styles[] = { "%s", "%s with spaces", "-%s", "%s.csv", ".%s", "%s\n", "\xc3\xa9%s", "%s%%s%%n" };
  char b[80];
  const char* st = c.pick(styles);
  if (std::strcmp(st, "%s%%s%%n") == 0)
    std::snprintf(b, sizeof b, "%s%%s%%n", base);
  else
    std::snprintf(b, sizeof b, st, base);
  std::string d = g_dir;
  if (c.coin(1, 6)) d += "/./";
  if (c.coin(1, 20)) return std::string("./") + b; // the scratch directory is the current one
  return d + "/" + b;
}

static void
huge(Ctx& c)
{
  // sizes that agree only modulo 2^31 or 2^32, as sparse files
  std::string a = g_dir + "/huge_a", b = g_dir + "/huge_b";
  size_t k = c.below(3) * c.below(5000);
  std::string s(k, '\0');
  put(a, s);
  put(b, s);
  static const off_t offs[] = { off_t(1) << 31, off_t(1) << 32, off_t(3) << 32 };
  off_t extra = c.pick(offs);
  if (::truncate(b.c_str(), static_cast<off_t>(k) + extra) != 0) {
    ::unlink(a.c_str());
    ::unlink(b.c_str());
    return;
  }
  bool g1 = true, g2 = true, ran = true;
  try {
    g1 = bwsl::compare_files(a, b);
    g2 = bwsl::compare_files(b, a);
  } catch (std::bad_alloc const&) {
    ran = false;
  }
  ::unlink(a.c_str());
  ::unlink(b.c_str());
  if (!ran) return;
  VF_CHECK(!g1 && !g2, "huge", "files of %zu and %lld bytes compare equal", k, static_cast<long long>(k) + static_cast<long long>(extra));
}

/// files of many megabytes, or of gigabytes of zeros, that differ in a byte
static void
large(Ctx& c, bool sparse)
{
  std::string a = g_dir + "/large_a", b = g_dir + "/large_b";
  off_t n = sparse ? (off_t(1) << (c.thorough ? 31 : 27)) + static_cast<off_t>(c.below(5000)) : static_cast<off_t>((17u << 20) + c.below(24u << 20));
  std::string s = sparse ? std::string() : std::string(static_cast<size_t>(n), '\0');
  u64 x = c.bits64();
  for (size_t i = 0; i < s.size(); i += 4096) s[i] = static_cast<char>(x = mix64(x));
  put(a, s);
  put(b, s);
  bool ok = !sparse || (::truncate(a.c_str(), n) == 0 && ::truncate(b.c_str(), n) == 0);
  if (ok && !sparse) ok = bwsl::compare_files(a, b);
  bool eq = ok;
  off_t at = c.coin() ? n - 1 : sparse ? n - 1 - static_cast<off_t>(c.below(1u << 20)) : static_cast<off_t>(c.below(static_cast<u64>(n)));
  int fd = ::open(b.c_str(), O_WRONLY);
  char y = sparse ? '\1' : static_cast<char>(s[static_cast<size_t>(at)] ^ (1 << c.below(8)));
  bool wrote = fd >= 0 && ::pwrite(fd, &y, 1, at) == 1;
  if (fd >= 0) ::close(fd);
  bool g1 = false, g2 = false;
  if (wrote && eq) {
    g1 = bwsl::compare_files(a, b);
    if (!sparse) g2 = bwsl::compare_files(b, a);
  }
  ::unlink(a.c_str());
  ::unlink(b.c_str());
  if (!wrote) return;
  VF_CHECK(sparse || eq, "large", "equal files of %lld bytes compare different", static_cast<long long>(n));
  VF_CHECK(!g1 && !g2, "large", "files of %lld bytes that differ at byte %lld compare equal", static_cast<long long>(n), static_cast<long long>(at));
  if (sparse && eq) VF_EV("kind.sparse_large");
  if (!sparse) VF_EV("kind.megabytes");
}

void
run_case(Ctx& c)
{
  if (g_dir.empty()) {
    const char* s = std::getenv("VF_SCRATCH");
    g_dir = s ? s : "/tmp";
    ::chmod(g_dir.c_str(), 0755);
  }
  if (c.coin(1, 300) && !c.fuzzing() && !VF_SAN) {
    huge(c);
    return;
  }
  if (!c.fuzzing() && !VF_SAN && c.idx % 10000 == 9123) return large(c, true);
  if (!c.fuzzing() && !VF_SAN && c.coin(1, 1500)) return large(c, false);
  c.nontrivial = true;
  std::string s = content(c, some_size(c)), t = s;
  c.sig(s.size());
  for (size_t i = 0; i < s.size() && i < 64; i++) c.sig(static_cast<unsigned char>(s[i]));
  std::string a = spell(c, "a"), b = spell(c, "b");
  u64 how = c.below(17);
  c.sig(how);
  c.note("%zu bytes, kind %d", s.size(), static_cast<int>(how));
  std::vector<std::string> made = { a, b };
  auto position = [&](size_t n) -> size_t {
    switch (c.below(5)) {
      case 0: return 0;
      case 1: return n - 1;
      case 2: return n / 2;
      case 3: return n > 8192 ? 8191 + c.below(2) : c.below(n);
      default: return c.below(n);
    }
  };
  switch (how) {
    case 0:
    case 1:
    case 2:
      put(a, s);
      put(b, s);
      judge(a, b, "kind.equal");
      break;
    case 3:
    case 4:
    case 5: // one byte differs
      if (t.empty()) t = s = "x";
      {
        size_t i = position(t.size());
        unsigned char o = static_cast<unsigned char>(t[i]);
        unsigned char n = static_cast<unsigned char>(c.coin() ? o ^ (1u << c.below(8)) : c.coin() ? 0xff : c.below(256));
        if (n == o) n = static_cast<unsigned char>(o + 1);
        t[i] = static_cast<char>(n);
        c.sig(i);
      }
      put(a, s);
      put(b, t);
      judge(a, b, "kind.byte");
      break;
    case 6:
    case 7: // one is a prefix of the other
      if (c.coin() || s.empty())
        t += content(c, 1 + c.below(c.coin() ? 1 : 9000));
      else
        t.resize(s.size() - 1 - (c.coin() ? 0 : c.below(s.size())));
      put(a, s);
      put(b, t);
      judge(a, b, "kind.prefix");
      break;
    case 8: // the same bytes in another order
      if (t.size() > 1) std::swap(t[position(t.size())], t[c.below(t.size())]);
      put(a, s);
      put(b, t);
      judge(a, b, "kind.swapped");
      break;
    case 9: // a file with itself, by the same or another name
      put(a, s);
      judge(a, a, "kind.itself");
      {
        std::string l = g_dir + "/link", h = g_dir + "/hard";
        ::unlink(l.c_str());
        ::unlink(h.c_str());
        if (a[0] == '/' && ::symlink(a.c_str(), l.c_str()) == 0) judge(a, l, "kind.symlink");
        if (::link(a.c_str(), h.c_str()) == 0) judge(h, a, "kind.hardlink");
        made.push_back(l);
        made.push_back(h);
      }
      break;
    case 10: // missing
      put(a, s);
      ::unlink(b.c_str());
      if (c.coin(1, 4)) b = "";
      if (c.coin(1, 4)) b = g_dir + "/no such directory/b";
      if (c.coin(1, 4)) b = a + "/b"; // below a file
      if (c.coin(1, 8)) b = g_dir + "/" + std::string(400, 'n');
      judge(a, b, "kind.missing");
      break;
    case 11: // both missing, or the same missing one
      ::unlink(a.c_str());
      ::unlink(b.c_str());
      judge(a, c.coin() ? a : b, "kind.both_missing");
      break;
    case 12: { // links to nothing or to themselves
      put(a, s);
      ::unlink(b.c_str());
      std::string to = c.coin() ? g_dir + "/nothing here" : b[0] == '/' ? b : g_dir + "/loop";
      if (::symlink(to.c_str(), b.c_str()) == 0) judge(a, b, "kind.dangling");
      break;
    }
    case 13: { // unreadable for this user
      put(a, s);
      put(b, c.coin() ? s : t + "x");
      bool both = c.coin(1, 3);
      ::chmod(b.c_str(), c.coin() ? 0 : 0200);
      if (both) ::chmod(a.c_str(), 0);
      // as root everything is readable: drop to an unprivileged user
      bool dropped = ::geteuid() == 0 && ::seteuid(65534) == 0;
      try {
        if (::access(b.c_str(), F_OK) == 0) {
          int fd = ::open(b.c_str(), O_RDONLY);
          if (fd >= 0)
            ::close(fd);
          else
            VF_EV("unreadable.tried");
          judge(a, b, "kind.unreadable");
          judge(b, b, "kind.unreadable");
        }
      } catch (...) {
        if (dropped && ::seteuid(0) != 0) std::abort();
        throw;
      }
      if (dropped && ::seteuid(0) != 0) std::abort();
      break;
    }
    case 15: { // different bytes that common summaries do not tell apart
      while (t.size() < 32) t += content(c, 40);
      size_t n = t.size(), d = c.coin() ? 1 : c.coin() ? size_t{ 8 } << c.below(3) : 1 + c.below(n / 3);
      if (d > n / 3) d = 1;
      size_t i = position(n);
      if (i + 2 * d >= n) i = c.below(n - 2 * d);
      auto u = [&](size_t k) { return reinterpret_cast<unsigned char*>(&t[k]); };
      const u64 summary = c.below(5);
      switch (summary) {
        case 0: // equal sums, also weighted by position
          for (auto k : { i, i + 2 * d }) *u(k) = static_cast<unsigned char>(*u(k) % 255);
          *u(i + d) = static_cast<unsigned char>(*u(i + d) % 254 + 2);
          s = t;
          *u(i) += 1;
          *u(i + d) -= 2;
          *u(i + 2 * d) += 1;
          break;
        case 1: // equal exclusive or
          s = t;
          {
            auto bit = static_cast<unsigned char>(1u << c.below(8));
            *u(i) ^= bit;
            *u(i + d) ^= bit;
          }
          break;
        case 2: // equal CRC-32: the difference is its polynomial
          s = t;
          if (i + 5 > n) i = n - 5;
          {
            u64 bits = 1;
            for (int k = 0; k < 32; k++) bits |= static_cast<u64>((0x04c11db7u >> (31 - k)) & 1u) << (k + 1);
            for (size_t k = 0; k < 5; k++) *u(i + k) ^= static_cast<unsigned char>(bits >> (8 * k));
          }
          break;
        case 3: // words or blocks exchanged
          s = t;
          d = c.coin() ? 8 : std::min<size_t>(n / 2, c.coin() ? 4096 : n / 2);
          i = c.below(n - 2 * d + 1);
          std::swap_ranges(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + d), t.begin() + static_cast<long>(i + d));
          break;
        default: // reversed
          s = t;
          std::reverse(t.begin(), t.end());
          break;
      }
      c.sig(summary);
      c.sig(i);
      put(a, s);
      put(b, t);
      judge(a, b, "kind.summary");
      break;
    }
    case 14: // read-only files are readable
      put(a, s);
      put(b, s);
      ::chmod(a.c_str(), 0444);
      ::chmod(b.c_str(), 0444);
      judge(a, b, "kind.readonly");
      break;
    default: { // an answer does not depend on earlier ones
      put(a, s);
      put(b, s);
      judge(a, b, "kind.changing");
      t = s + "1";
      put(b, t);
      judge(a, b, "kind.changing");
      put(a, t);
      judge(a, b, "kind.changing");
      ::unlink(b.c_str());
      judge(a, b, "kind.changing");
      break;
    }
  }
  for (auto const& p : made)
    if (p != "") ::unlink(p.c_str());
}
