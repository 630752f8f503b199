// Saved lattice tables reproduce the queried geometry.
#include "vf_lattice.hpp"
#include <fstream>
#include <set>
using namespace vf;

static std::vector<std::vector<std::string>>
read_csv(std::string const& f)
{
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  std::string t = o.str();
  VF_CHECK(!t.empty() && t.back() == '\n', "lines", "%s does not end with a newline", f.c_str());
  std::vector<std::vector<std::string>> r;
  std::vector<std::string> row(1);
  for (char ch : t) {
    if (ch == '\n') {
      r.push_back(row);
      row.assign(1, "");
    } else if (ch == ',')
      row.emplace_back();
    else
      row.back() += ch;
  }
  return r;
}
static double
num(std::string const& s)
{
  char* e = nullptr;
  double v = std::strtod(s.c_str(), &e);
  VF_CHECK(!s.empty() && *e == 0 && !std::isspace(static_cast<unsigned char>(s[0])), "number", "cell '%s' is not a number", s.c_str());
  return v;
}
static u64
integer(std::string const& s)
{
  VF_CHECK(!s.empty() && s.find_first_not_of("0123456789") == std::string::npos, "integer", "cell '%s' is not an index", s.c_str());
  return std::strtoull(s.c_str(), nullptr, 10);
}
static void
header(std::vector<std::string> const& h, size_t cols)
{
  VF_CHECK(h.size() == cols, "header", "header of %zu columns, expected %zu", h.size(), cols);
  std::set<std::string> d(h.begin(), h.end());
  VF_CHECK(d.size() == cols && !d.count(""), "header.names", "column names are not distinct: %s", VS(h));
  for (auto const& x : h)
    VF_CHECK(!std::isdigit(static_cast<unsigned char>(x[0])) && x[0] != '-', "header.text", "header cell %s", x.c_str());
}

void
run_case(Ctx& c)
{
  Bra b = random_bra(c);
  bool closed = c.coin(2, 3);
  auto s = lattice_sizes(c, b, 24);
  bool large = !VF_SAN && !c.fuzzing() && c.coin(1, 300), many = false;
  if (large) s = c.coin() ? large_lattice(c, b, 65500, 5000) : large_lattice(c, b, 260, 60);
  if (large && c.coin(1, 2)) { // more than a million pairs
    many = true;
    s = large_lattice(c, b, 1010, 60);
    VF_EV("million_pairs");
  }
  sig_bra(c, b);
  sig_sizes(c, s, closed ? B::Closed : B::Open);
  u64 n = product(s);
  c.nontrivial = n > 1;
  Lattice l(b.br, s, closed ? B::Closed : B::Open);
  const char* dir = std::getenv("VF_SCRATCH");
  std::string base = std::string(dir ? dir : ".") + "/t";
  for (int t = 0; t < 4; t++) {
    std::string f = base + std::to_string(t) + ".csv";
    switch (c.below(4)) {
      case 0: std::remove(f.c_str()); break;
      case 1: { // a longer file is already there
        std::ofstream o(f);
        for (int k = 0; k < 3000; k++) o << "old contents, line " << k << "\n";
        VF_EV("preexisting");
        break;
      }
      case 2: { std::ofstream o(f); break; }
      default: break; // whatever the previous case left
    }
    size_t dim = b.dim;
    if (t == 0) {
      l.SavePositions(f);
      auto r = read_csv(f);
      header(r[0], 1 + dim);
      VF_CHECK(r.size() == n + 1, "positions.rows", "%zu rows for %llu sites", r.size() - 1, (unsigned long long)n);
      for (u64 i = 0; i < n; i++) {
        VF_CHECK(r[i + 1].size() == 1 + dim && integer(r[i + 1][0]) == i, "positions.index", "row %llu: %s", (unsigned long long)i, VS(r[i + 1]));
        auto v = l.GetPosition(i);
        for (size_t k = 0; k < dim; k++)
          VF_CHECK(num(r[i + 1][1 + k]) == v[k], "positions.value", "site %llu component %zu: %s for %.17g", (unsigned long long)i, k, r[i + 1][1 + k].c_str(), v[k]);
      }
    } else if (t == 1) {
      l.SaveDistances(f);
      auto r = read_csv(f);
      header(r[0], 1 + dim);
      VF_CHECK(r.size() == n + 1, "vectors.rows", "%zu rows for %llu sites", r.size() - 1, (unsigned long long)n);
      for (u64 i = 0; i < n; i++) {
        VF_CHECK(r[i + 1].size() == 1 + dim && integer(r[i + 1][0]) == i, "vectors.index", "row %llu: %s", (unsigned long long)i, VS(r[i + 1]));
        auto v = l.GetVector(0, i);
        for (size_t k = 0; k < dim; k++)
          VF_CHECK(num(r[i + 1][1 + k]) == v[k], "vectors.value", "site %llu component %zu: %s for %.17g", (unsigned long long)i, k, r[i + 1][1 + k].c_str(), v[k]);
      }
    } else if (t == 2) {
      l.SaveMomenta(f);
      auto r = read_csv(f);
      header(r[0], 1 + dim);
      VF_CHECK(r.size() == (closed ? n : 0) + 1, "momenta.rows", "%zu rows for %llu sites", r.size() - 1, (unsigned long long)n);
      for (u64 i = 0; closed && i < n; i++) {
        VF_CHECK(r[i + 1].size() == 1 + dim && integer(r[i + 1][0]) == i, "momenta.index", "row %llu: %s", (unsigned long long)i, VS(r[i + 1]));
        auto v = l.GetMomentum(i);
        for (size_t k = 0; k < dim; k++)
          VF_CHECK(num(r[i + 1][1 + k]) == v[k], "momenta.value", "momentum %llu component %zu: %s for %.17g", (unsigned long long)i, k, r[i + 1][1 + k].c_str(), v[k]);
      }
      if (!closed) VF_EV("momenta.open");
    } else if (n < 400 || many) {
      l.SavePairs(f);
      std::ifstream in(f, std::ios::binary);
      std::string line;
      std::vector<std::string> row;
      auto next = [&] { // one row at a time, as the table may be large
        if (!std::getline(in, line) || in.eof()) return false;
        size_t cells = 0;
        for (size_t from = 0;; cells++) {
          size_t to = line.find(',', from);
          if (row.size() <= cells) row.emplace_back();
          row[cells].assign(line, from, to == std::string::npos ? to : to - from);
          if (to == std::string::npos) break;
          from = to + 1;
        }
        row.resize(cells + 1);
        return true;
      };
      VF_CHECK(next(), "lines", "%s has no complete first line", f.c_str());
      header(row, 3 + 3 * dim);
      for (u64 p = 0; p < n * n; p++) {
        VF_CHECK(next(), "pairs.rows", "%llu rows for %llu sites", (unsigned long long)p, (unsigned long long)n);
        VF_CHECK(row.size() == 3 + 3 * dim, "pairs.columns", "row %llu: %s", (unsigned long long)p, VS(row));
        u64 i = integer(row[0]), a = integer(row[1]), bb = integer(row[2]);
        VF_CHECK(i == p && a < n && bb < n && bwsl::pairs::GetPairIndex(a, bb, n) == i && l.GetPairIndex(a, bb) == i, "pairs.index", "row %llu: index %llu of pair (%llu,%llu)", (unsigned long long)p, (unsigned long long)i, (unsigned long long)a, (unsigned long long)bb);
        auto va = l.GetVector(0, a), vb = l.GetVector(0, bb), vab = l.GetVector(a, bb);
        for (size_t k = 0; k < dim; k++) {
          VF_CHECK(num(row[3 + k]) == va[k], "pairs.first", "pair (%llu,%llu) component %zu: %s for %.17g", (unsigned long long)a, (unsigned long long)bb, k, row[3 + k].c_str(), va[k]);
          VF_CHECK(num(row[3 + dim + k]) == vb[k], "pairs.second", "pair (%llu,%llu) component %zu: %s for %.17g", (unsigned long long)a, (unsigned long long)bb, k, row[3 + dim + k].c_str(), vb[k]);
          VF_CHECK(num(row[3 + 2 * dim + k]) == vab[k], "pairs.vector", "pair (%llu,%llu) component %zu: %s for %.17g", (unsigned long long)a, (unsigned long long)bb, k, row[3 + 2 * dim + k].c_str(), vab[k]);
        }
      }
      VF_CHECK(!next() && line.empty(), "pairs.rows", "more rows than pairs of %llu sites", (unsigned long long)n);
    }
  }
}
