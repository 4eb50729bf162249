// ICGEM reader on arbitrary files: it ends, touches no memory it does not own,
// and success means that every requested coefficient is what the file says.
#include "icgem_gen.hpp"
#include "icgemio.hpp"
#include "harmonic_coeffs.hpp"
#include <cstring>
#include <set>
using namespace vp;

namespace {
struct Line {
  long n, m;
  double C, S;
};
// every line of the file that states a coefficient, leniently
std::vector<Line> stated(const std::string &t) {
  std::vector<Line> v;
  size_t p = 0;
  while (p <= t.size()) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos)
      e = t.size();
    std::string l(t.substr(p, e - p).c_str());
    p = e + 1;
    size_t k = l.find_first_not_of(" \t");
    if (k == std::string::npos || l.compare(k, 3, "gfc") || !std::isspace((unsigned char)l[k + 3]))
      continue;
    const char *s = l.c_str() + k + 3;
    char *end;
    Line x;
    x.n = std::strtol(s, &end, 10);
    if (end == s)
      continue;
    s = end;
    x.m = std::strtol(s, &end, 10);
    if (end == s)
      continue;
    s = end;
    x.C = std::strtod(s, &end);
    if (end == s)
      continue;
    s = end;
    x.S = std::strtod(s, &end);
    if (end == s)
      continue;
    if (*end && !std::isspace((unsigned char)*end)) {
      // not the whole of it: a Fortran exponent counts for what it says,
      // anything else is no number
      if (*end != 'D' && *end != 'd')
        continue;
      std::string f(s);
      f[end - s] = 'e';
      x.S = std::strtod(f.c_str(), &end);
      if (*end && !std::isspace((unsigned char)*end))
        continue;
    }
    v.push_back(x);
  }
  return v;
}
// what follows the end of the header (nothing if it never ends)
std::string data_part(const std::string &t) {
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos)
      return "";
    if (t.compare(p, 11, "end_of_head") == 0)
      return t.substr(e + 1);
    p = e + 1;
  }
  return "";
}
bool same(double a, double b) { return a == b || (a != a && b != b); }

void run(Gen &g, const std::string &text, int maxl) {
  const std::string fn = scratch_file("gfc");
  write_file(fn, text);
  dso::Icgem ic(fn.c_str());
  const int herr = ic.parse_header();
  g.label(herr ? "header refused" : "header read");
  const auto st = stated(text);
  // (a caller that ignores the header error must be safe, too)
  if (herr && g.weighted({1, 1})) {
    unlink(fn.c_str());
    return;
  }
  for (int r = 0, nr = (int)g.integer(1, 3); r < nr; r++) {
    int l, k;
    switch (g.weighted({4, 4, 1, 1})) {
    case 0:
      l = std::max(0, std::min(ic.degree(), maxl));
      k = l;
      break;
    case 1:
      l = (int)g.integer(0, maxl);
      k = (int)g.integer(0, l);
      break;
    case 2:
      l = (int)g.integer(0, 4);
      k = (int)g.integer(-2, 6);
      break;
    default:
      l = (int)g.integer(-3, 2);
      k = l;
    }
    int cdeg = std::max(0, l);
    if (g.weighted({6, 1}))
      cdeg = (int)g.integer(0, maxl);
    g.note("request %d/%d into a container of degree %d (model says %d)", l, k, cdeg, ic.degree());
    dso::HarmonicCoeffs hc(cdeg);
    const int err = ic.parse_data(l, k, &hc);
    g.label(err ? "data refused" : "data read");
    if (err) {
      g.nontrivial();
      continue;
    }
    VP_CHECK(l <= ic.degree() && k <= l && l <= cdeg, "success for an impossible request");
    g.nontrivial();
    bool d1 = true; // degree one absent altogether
    for (auto &x : stated(data_part(text)))
      if (x.n == 1 && x.m <= k)
        d1 = false;
    for (int n = 0; n <= l; n++)
      for (int m = 0; m <= std::min(n, k); m++) {
        const double C = hc.C(n, m), S = m ? hc.S(n, m) : 0e0;
        bool ok = n == 1 && d1 && C == 0e0 && S == 0e0;
        for (auto &x : st)
          if (x.n == n && x.m == m && same(x.C, C) && (!m || same(x.S, S)))
            ok = true;
        VP_CHECK(ok, "reported success, but C(%d,%d)=%.17g S=%.17g is in no line of the file", n, m, C, S);
      }
  }
  unlink(fn.c_str());
}
std::vector<std::string> split(const std::string &t) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos)
      e = t.size();
    v.push_back(t.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
} // namespace

VP_PROP(line_mutations, 24000, 300000,
        "a request whose outcome was judged (refused, or every coefficient traced to a line)") {
  icg::Model M = icg::make(g, 8);
  auto L = split(M.text);
  for (int i = 0, n = (int)g.integer(1, 4); i < n && !L.empty(); i++) {
    // data lines more often than header lines
    size_t k = g.choose(L.size());
    std::string &l = L[k];
    switch (g.choose(19)) {
    case 0:
      L.erase(L.begin() + k);
      break;
    case 1:
      L.insert(L.begin() + g.choose(L.size() + 1), std::string(l));
      break;
    case 2:
      std::swap(l, L[g.choose(L.size())]);
      break;
    case 3: // another degree/order
    case 4: {
      int a, b;
      char rest[512] = "";
      if (std::sscanf(l.c_str(), "gfc %d %d %511[^\n]", &a, &b, rest) == 3) {
        static const int v[] = {0, 1, 2, 3, -1, -2, 9, 100, -2147483647 - 1, 2147483647, 50};
        a = g.choose(2) ? v[g.choose(11)] : a;
        b = g.choose(2) ? v[g.choose(11)] : b;
        l = fmt("gfc %d %d %s", a, b, rest);
      }
      break;
    }
    case 5: // cut
      l.resize(g.choose(l.size() + 1));
      break;
    case 6: { // replace a token
      static const char *tk[] = {"nan", "inf", "-inf", "1e999", "1.0D-06", "x", "-", "1e-999", "", "0x1p3", "99999999999999999999", "-0.0", "1.5e"};
      size_t a = l.find_last_of(' ');
      if (a != std::string::npos)
        l = l.substr(0, a + 1) + tk[g.choose(13)];
      break;
    }
    case 7: // first numeric field after order
    {
      int a, b;
      if (std::sscanf(l.c_str(), "gfc %d %d", &a, &b) == 2)
        l = fmt("gfc %d %d %s %s", a, b, g.pick({"1.0", "1D0", "abc", "1e-3"}), g.pick({"0.0", "2.5", "", "junk", "1.0D-3", "2.5d-3", "2.5x"}));
      break;
    }
    case 8: // long line
      l += std::string(g.pick({200, 256, 300, 511, 512, 600, 5000}), g.pick({' ', '0', 'x'}));
      break;
    case 9: { // long value
      static const char *kw[] = {"product_type", "modelname", "errors", "norm", "tide_system"};
      l = std::string(kw[g.choose(5)]) + " " + std::string(g.pick({62, 63, 64, 65, 126, 127, 128, 129, 200}), 'v');
      break;
    }
    case 10: { // keyword without value
      static const char *kw[] = {"product_type", "modelname", "errors", "norm", "tide_system", "radius", "earth_gravity_constant", "max_degree"};
      l = std::string(kw[g.choose(8)]) + std::string(g.choose(4), ' ');
      break;
    }
    case 11: {
      static const char *hv[] = {"max_degree 0", "max_degree -5", "max_degree 99999999999999", "max_degree 7.5", "max_degree 2147483648", "radius 0", "radius 0.637D+07", "radius nan", "earth_gravity_constant 0.39D15", "max_degree\t5", "norm", "normalisation something", "radius_of_earth 12", "max_degrees 4"};
      l = hv[g.choose(14)];
      break;
    }
    case 12: // no end of header
      for (auto &x : L)
        if (x.compare(0, 11, "end_of_head") == 0) {
          x = g.pick({"end_of_hea", " end_of_head", "END_OF_HEAD", ""});
        }
      break;
    case 13:
      L.resize(k);
      break;
    case 14: // many lines
      L.insert(L.begin() + k, g.pick({10, 999, 1000, 1001, 1500}), g.choose(2) ? "" : "comment");
      break;
    case 15:
      l.insert(g.choose(l.size() + 1), 1, (char)g.pick({0, 1, 9, 11, 13, 127, 200, 255}));
      break;
    case 16:
      l = l + " ";
      break;
    case 17:
      l = "gfc " + std::string(g.choose(3) ? "1 1 0 0" : "1 0 0 0");
      break;
    default:
      l = "";
    }
  }
  std::string t;
  for (size_t i = 0; i < L.size(); i++)
    t += L[i] + (i + 1 < L.size() || g.choose(4) ? "\n" : "");
  g.note("file of %zu bytes:\n%s", t.size(), t.substr(0, 2000).c_str());
  run(g, t, 10);
}

VP_PROP(byte_mutations, 16000, 200000, "same, after byte-level damage") {
  icg::Model M = icg::make(g, 5);
  std::string t = M.text;
  for (int i = 0, n = (int)g.integer(1, 8); i < n && !t.empty(); i++) {
    const size_t k = g.choose(t.size());
    switch (g.choose(5)) {
    case 0:
      t[k] = (char)g.choose(256);
      break;
    case 1:
      t.erase(k, g.choose(20));
      break;
    case 2:
      t.insert(k, 1, (char)g.choose(256));
      break;
    case 3: {
      std::string part = t.substr(k, g.choose(60));
      t.insert(g.choose(t.size() + 1), part);
      break;
    }
    default:
      t.resize(k);
    }
  }
  g.note("file of %zu bytes:\n%s", t.size(), t.substr(0, 2000).c_str());
  run(g, t, 6);
}

VP_PROP(no_file, 50, 200, "a path that is no readable regular file") {
  const std::string fn = g.choose(2) ? scratch_dir() + "/does-not-exist" : scratch_dir();
  dso::Icgem ic(fn.c_str());
  VP_CHECK(ic.parse_header() != 0, "a header was read from nothing");
  dso::HarmonicCoeffs hc((int)g.integer(0, 4));
  VP_CHECK(ic.parse_data(0, 0, &hc) != 0, "data were read from nothing");
  g.nontrivial();
}
