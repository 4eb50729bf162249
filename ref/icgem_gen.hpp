// Generator of ICGEM (gfc) gravity model files, with what they mean.
#pragma once
#include "vpbt.hpp"
#include <algorithm>
namespace icg {
struct Coef {
  double C = 0, S = 0;
  bool present = false;
};
struct Model {
  int deg = 0;
  double gm = 0, re = 0;
  bool normalized = true;
  std::vector<std::vector<Coef>> c; // [n][m]
  std::string text;
  bool deg1_missing = false;
};
inline std::string number(vp::Gen &g, double v, double &meant) {
  static const char *fmts[] = {"%.16e", "%.12E", "%+.15e", "%.10e", "%.17g", "%.3e"};
  std::string s = vp::fmt(fmts[g.choose(6)], v);
  meant = std::strtod(s.c_str(), nullptr);
  return s;
}
inline double coef(vp::Gen &g) {
  switch (g.weighted({1, 6, 1})) {
  case 0:
    return 0e0;
  case 1:
    return g.sign() * std::pow(10e0, g.real(-12, 0));
  default:
    return g.sign() * (double)g.integer(1, 1000);
  }
}
inline std::string pad(vp::Gen &g, int lo = 1, int hi = 4) {
  return std::string(g.integer(lo, hi), ' ');
}
// maxdeg: largest degree generated
inline Model make(vp::Gen &g, int maxdeg) {
  Model m;
  m.deg = (int)g.integer(1, maxdeg);
  const char *nl = g.weighted({6, 1}) ? "\r\n" : "\n";
  // header
  std::vector<std::string> h;
  const char *sep = g.weighted({5, 1}) ? "\t" : " ";
  auto kv = [&](const char *k, const std::string &v) {
    std::string tr = g.weighted({3, 1}) ? pad(g) : "";
    std::string ld = g.weighted({6, 1}) ? pad(g) : "";
    h.push_back(ld + k + sep + pad(g, 0, 12) + v + tr);
  };
  m.gm = g.real(1e13, 5e14);
  m.re = g.real(6.3e6, 6.4e6);
  kv("product_type", "gravity_field");
  kv("modelname", std::string(g.weighted({9, 1}) ? g.integer(41, 127) : g.integer(1, 40), 'M'));
  kv("earth_gravity_constant", number(g, m.gm, m.gm));
  kv("radius", number(g, m.re, m.re));
  kv("max_degree", std::to_string(m.deg));
  kv("errors", g.choose(2) ? "formal" : "no");
  if (g.choose(2))
    kv("tide_system", g.choose(2) ? "tide_free" : "zero_tide");
  switch (g.weighted({2, 2, 1})) {
  case 0:
    kv("norm", "fully_normalized");
    break;
  case 1:
    break; // default: fully normalized
  default:
    kv("norm", "unnormalized");
    m.normalized = false;
  }
  // keywords in any order
  for (size_t i = h.size(); i > 1; --i)
    if (size_t j = g.choose(i))
      std::swap(h[i - 1], h[i - 1 - j]);
  std::string t;
  if (g.choose(2)) {
    t += std::string("a gravity field model") + nl;
    t += nl;
    if (!g.weighted({1, 20})) // a long story
      for (int i = 0, n = (int)g.integer(50, 900); i < n; i++)
        t += std::string(i % 7 ? (i * 37) % 250 : 0, "the_modelname"[i % 13]) + nl;
    if (g.choose(2))
      t += std::string("begin_of_head ===============================") + nl;
  }
  for (auto &l : h) {
    t += l + nl;
    if (g.weighted({12, 1}))
      t += nl;
    if (g.weighted({12, 1}))
      t += std::string("generating_institute  somewhere") + nl;
  }
  t += std::string("key   L    M         C                  S") + nl;
  t += std::string("end_of_head ") + std::string(g.integer(0, 40), '=') + nl;
  // data
  m.c.resize(m.deg + 1);
  struct Row {
    int n, m;
    std::string s;
  };
  m.deg1_missing = g.weighted({4, 1});
  const bool sigma = g.choose(2);
  const int order = g.weighted({4, 2, 2});
  std::vector<Row> rows;
  // the larger models are drawn from one number, all notation alike
  const bool big = m.deg > 130;
  uint64_t w = big ? g.word() : 0;
  const int digits = big ? (int)g.integer(6, 17) : 0;
  auto plain = [&](double &v) {
    w = vp::mix64(w);
    const std::string q = vp::fmt("%.*e", digits, (double((w >> 11) & 0xfffffffffffff) * 0x1p-52 - 0.5) * std::pow(10, -(int)(w % 12)));
    v = std::strtod(q.c_str(), nullptr);
    return q;
  };
  for (int n = 0; n <= m.deg; n++) {
    m.c[n].resize(n + 1);
    for (int k = 0; k <= n; k++) {
      Coef &x = m.c[n][k];
      if (n == 1 && m.deg1_missing)
        continue;
      x.present = true;
      if (big) {
        std::string s = vp::fmt("gfc %4d %4d ", n, k) + plain(x.C);
        s += " " + (k ? plain(x.S) : std::string("0.0"));
        rows.push_back({n, k, s + (sigma ? " 1.234e-12 0.5e-13" : "")});
        continue;
      }
      std::string s = "gfc " + pad(g, 0, 3) + std::to_string(n) + pad(g, 1, 2) + std::to_string(k) + " ";
      std::string cs = number(g, coef(g), x.C);
      std::string ss;
      if (k == 0)
        ss = g.choose(2) ? "0.0000000000e+00" : "0.0";
      else
        ss = number(g, coef(g), x.S);
      s += pad(g, 0, 2) + cs + " " + ss;
      if (sigma)
        s += " 1.234e-12 0.5e-13";
      rows.push_back({n, k, s});
    }
  }
  if (order == 1)
    std::stable_sort(rows.begin(), rows.end(), [](const Row &a, const Row &b) { return a.m < b.m; });
  else if (order == 2)
    for (size_t i = rows.size(); i > 1; --i)
      std::swap(rows[i - 1], rows[big ? (w = vp::mix64(w)) % i : g.choose(i)]);
  for (size_t i = 0; i < rows.size(); i++) {
    const int junk = big ? 0 : g.weighted({30, 1, 1, 1});
    if (junk == 1)
      t += vp::fmt("gfct %d %d 0.5 0.5 0.0 0.0 20050101", (int)g.choose(m.deg + 1), 0) + nl;
    else if (junk == 2)
      t += vp::fmt("trnd %d %d 1e-11 0.5", rows[i].n, rows[i].m) + nl;
    else if (junk == 3)
      t += nl;
    t += rows[i].s;
    if (i + 1 < rows.size() || !g.weighted({3, 1}))
      t += nl;
  }
  m.text = t;
  return m;
}
} // namespace icg
