// Interpolation in a table: nearest, linear and quadratic.
#include <bits/stdc++.h>
namespace intrp {
#define main intrp_main
#include "var/intrp.cc"
#undef main
} // namespace intrp
#include "vpbt.hpp"
using namespace vp;
typedef long double L;
namespace {
struct Table {
  std::vector<double> x, y;
};
Table make(Gen &g, int lo) {
  Table t;
  const int n = g.boolean(0.03) ? (int)g.integer(13, 300) : (int)g.integer(lo, 12);
  double x = g.real(-50, 50);
  const int even = (int)g.choose(2);
  const double step = g.logreal(0.05, 20);
  const int kind = g.weighted({3, 1, 1, 1});
  const double a = g.real(-3, 3), b = g.real(-3, 3), c = g.real(-3, 3);
  for (int i = 0; i < n; i++) {
    t.x.push_back(x);
    x += even ? step : g.logreal(0.05, 20);
    t.y.push_back(kind == 0 ? g.real(-10, 10) : kind == 1 ? a + b * t.x[i] : kind == 2 ? a + b * t.x[i] + c * t.x[i] * t.x[i] : a);
    g.note("%.17g %.17g", t.x[i], t.y[i]);
  }
  return t;
}
double query(Gen &g, const Table &t, int &where) {
  const int n = (int)t.x.size();
  double x;
  switch (g.weighted({6, 2, 1, 1, 1})) {
  case 0: {
    const int i = (int)g.choose(n - 1);
    x = t.x[i] + g.real(0, 1) * (t.x[i + 1] - t.x[i]);
    break;
  }
  case 1: x = t.x[g.choose(n)]; break;
  case 2: x = t.x[0] - g.logreal(1e-6, 100); break;
  case 3: x = t.x[n - 1] + g.logreal(1e-6, 100); break;
  default: {
    const int i = (int)g.choose(n);
    x = std::nextafter(t.x[i], g.choose(2) ? 1e9 : -1e9);
  }
  }
  where = x < t.x[0] ? -1 : x > t.x[n - 1] ? 1 : 0;
  g.note("at %.17g", x);
  return x;
}
template <class I> void outside(const Table &t, const I &in, double x, int where) {
  int st = -7;
  const double v = in.value_at(x, st);
  if (where < 0)
    VP_CHECK(st == 1 && v == t.y.front(), "before the table: status %d value %.17g", st, v);
  if (where > 0)
    VP_CHECK(st == 2 && v == t.y.back(), "after the table: status %d value %.17g", st, v);
  if (where == 0 && x != t.x.back())
    VP_CHECK(st == 0, "in the table: status %d", st);
  for (size_t i = 0; i < t.x.size(); i++)
    if (t.x[i] == x)
      VP_CHECK(near(v, t.y[i], 1e-13, 1e-13), "at node %zu: %.17g, should be %.17g", i, v, t.y[i]);
}
} // namespace
VP_PROP(nearest, 60000, 800000, "inside the table, off the nodes") {
  const Table t = make(g, 2);
  int where;
  const double x = query(g, t, where);
  intrp::NearestNeighborInterpolator in(t.x.data(), t.y.data(), t.x.size());
  outside(t, in, x, where);
  if (where)
    return;
  int st;
  const double v = in.value_at(x, st);
  double best = INFINITY;
  for (double q : t.x)
    best = std::min(best, std::fabs(q - x));
  bool ok = false;
  for (size_t i = 0; i < t.x.size(); i++)
    ok |= std::fabs(t.x[i] - x) <= best * (1 + 1e-14) + 1e-14 * std::fabs(x) && v == t.y[i];
  VP_CHECK(ok, "value %.17g is of no nearest node", v);
  g.nontrivial(best > 0);
}
VP_PROP(linear, 60000, 800000, "inside the table, off the nodes") {
  const Table t = make(g, 2);
  int where;
  const double x = query(g, t, where);
  intrp::LinearInterpolator in(t.x.data(), t.y.data(), t.x.size());
  outside(t, in, x, where);
  if (where)
    return;
  int st;
  const double v = in.value_at(x, st);
  size_t i = 1;
  while (i + 1 < t.x.size() && t.x[i] <= x)
    i++;
  const L want = t.y[i - 1] + ((L)t.y[i] - t.y[i - 1]) * ((L)x - t.x[i - 1]) / ((L)t.x[i] - t.x[i - 1]);
  VP_CHECK(near(v, (double)want, 1e-12, 1e-12 * (std::fabs(t.y[i]) + std::fabs(t.y[i - 1]))), "value %.17g, should be %.17Lg", v, want);
  g.nontrivial(x != t.x[i - 1] && x != t.x[i]);
}
VP_PROP(quadratic, 60000, 800000, "inside the table, off the nodes") {
  const Table t = make(g, 3);
  int where;
  const double x = query(g, t, where);
  intrp::QuadraticInterpolator in(t.x.data(), t.y.data(), t.x.size());
  outside(t, in, x, where);
  if (where)
    return;
  int st;
  const double v = in.value_at(x, st);
  const int n = (int)t.x.size();
  int i = 1;
  while (i + 1 < n && t.x[i] <= x)
    i++;
  // the third node: the nearer of the neighbours there are
  bool ok = false;
  L wants[2];
  int nw = 0;
  const double d1 = i >= 2 ? x - t.x[i - 2] : INFINITY, d2 = i + 1 < n ? t.x[i + 1] - x : INFINITY;
  for (int k : {i - 2, i + 1}) {
    if (k < 0 || k >= n)
      continue;
    const double d = k < i ? d1 : d2;
    if (d > std::min(d1, d2) * (1 + 1e-12))
      continue;
    const L x0 = t.x[i - 1], x1 = t.x[i], x2 = t.x[k], y0 = t.y[i - 1], y1 = t.y[i], y2 = t.y[k];
    const L l0 = y0 * (x - x1) * (x - x2) / ((x0 - x1) * (x0 - x2)), l1 = y1 * (x - x0) * (x - x2) / ((x1 - x0) * (x1 - x2)), l2 = y2 * (x - x0) * (x - x1) / ((x2 - x0) * (x2 - x1));
    wants[nw++] = l0 + l1 + l2;
    ok |= fabsl(v - (l0 + l1 + l2)) <= 1e-11L * (fabsl(l0) + fabsl(l1) + fabsl(l2)) + 1e-15L;
  }
  VP_CHECK(ok, "value %.17g, should be %.17Lg", v, nw ? wants[0] : 0);
  g.nontrivial(x != t.x[i - 1] && x != t.x[i]);
}
