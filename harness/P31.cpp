// The table of Earth orientation parameters: values kept, interpolated, corrected.
#include "eop.hpp"
#include "iers2010/iers2010.hpp"
#include "vpbt.hpp"
#include <array>
#include <memory>
using namespace vp;
using std::vector;
using T = dso::EopLookUpTable;
static const char *NAME[8] = {"mjd", "xp", "yp", "dut", "dx", "dy", "lod", "omega"};
static double *col(T &t, int c, int i) {
  switch (c) {
  case 0: return t.mjd(i);
  case 1: return t.xp(i);
  case 2: return t.yp(i);
  case 3: return t.dut(i);
  case 4: return t.dx(i);
  case 5: return t.dy(i);
  case 6: return t.lod(i);
  default: return t.omega(i);
  }
}
static const double *ccol(const T &t, int c, int i) {
  switch (c) {
  case 0: return t.mjd(i);
  case 1: return t.xp(i);
  case 2: return t.yp(i);
  case 3: return t.dut(i);
  case 4: return t.dx(i);
  case 5: return t.dy(i);
  case 6: return t.lod(i);
  default: return t.omega(i);
  }
}
using Row = std::array<double, 8>;
using Model = vector<Row>;
static Model gen_rows(Gen &g, int n, bool smooth_too = true) {
  Model m(n);
  // 0h UTC, in TT
  double t = (double)g.integer(41317, 61000) + (32.184 + (double)g.integer(10, 37)) / 86400;
  const bool poly = smooth_too && g.boolean(0.3);
  const int deg = (int)g.integer(0, 3);
  for (int i = 0; i < n; i++) {
    m[i][0] = t + i;
    for (int c = 1; c < 8; c++) {
      if (poly) {
        double v = 0, x = 1;
        for (int d = 0; d <= deg; d++, x *= (i - n / 2) / 10.)
          v += x * (0.1 * c + 0.01 * d);
        m[i][c] = v;
      } else
        m[i][c] = g.real(-1, 1) * (c == 6 ? 3e-3 : c == 7 ? 1e-10 : c == 4 || c == 5 ? 1e-3 : 0.6);
    }
  }
  return m;
}
static void fill(T &t, const Model &m) {
  for (size_t i = 0; i < m.size(); i++)
    for (int c = 0; c < 8; c++)
      *col(t, c, (int)i) = m[i][c];
}
static void same(const T &t, const Model &m, const char *what) {
  VP_CHECK(t.size() == (int)m.size(), "%s: size %d, should be %zu", what, t.size(), m.size());
  for (size_t i = 0; i < m.size(); i++)
    for (int c = 0; c < 8; c++)
      VP_CHECK(*ccol(t, c, (int)i) == m[i][c], "%s: %s of entry %zu of %zu is %.17g, should be %.17g", what, NAME[c], i, m.size(), *ccol(t, c, (int)i), m[i][c]);
}
VP_PROP(container, 20000, 600000, "two tables of different sizes were copied or moved over one another") {
  {
    struct Slot {
      std::unique_ptr<T> t;
      Model m;
    };
    Slot s[3];
    const int n = (int)g.integer(2, 14);
    for (int k = 0; k < n; k++) {
      Slot &a = s[g.choose(3)];
      Slot &b = s[g.choose(3)];
      const int sz = (int)g.weighted({1, 6, 2}) == 0 ? 0 : (int)g.integer(1, g.choose(3) ? 14 : g.choose(30) ? 60 : 3000);
      const int op = a.t ? 1 + (int)g.choose(8) : 0;
      switch (op) {
      case 0:
        g.note("new %d", sz);
        if (sz == 10 && g.boolean())
          a.t.reset(new T());
        else
          a.t.reset(new T(sz));
        a.m = gen_rows(g, sz);
        VP_CHECK(a.t->size() == sz, "a new table of %d has size %d", sz, a.t->size());
        fill(*a.t, a.m);
        break;
      case 1: { // resize
        g.note("resize %d to %d", a.t->size(), sz);
        const bool grow = sz > (int)a.m.size();
        a.t->resize(sz);
        if (grow) { // what it holds then is not said
          a.m = gen_rows(g, sz);
          VP_CHECK(a.t->size() == sz, "resized to %d, size is %d", sz, a.t->size());
          fill(*a.t, a.m);
        } else
          a.m.resize(sz);
        break;
      }
      case 2: {
        g.note("copy construct");
        if (!b.t || &a == &b)
          break;
        if (b.m.size() != a.m.size())
          g.nontrivial();
        a.t.reset(new T(*b.t)), a.m = b.m;
        break;
      }
      case 3:
      case 4: {
        g.note("copy assign");
        if (!b.t)
          break;
        if (b.m.size() != a.m.size())
          g.nontrivial();
        *a.t = *b.t, a.m = b.m;
        break;
      }
      case 5: {
        g.note("move construct");
        if (!b.t || &a == &b)
          break;
        a.t.reset(new T(std::move(*b.t))), a.m = b.m;
        b.m.clear();
        VP_CHECK(b.t->size() == 0, "moved from, size %d", b.t->size());
        break;
      }
      case 6: {
        g.note("move assign");
        if (!b.t || &a == &b)
          break;
        if (b.m.size() != a.m.size())
          g.nontrivial();
        *a.t = std::move(*b.t), a.m = b.m;
        b.m.clear();
        VP_CHECK(b.t->size() == 0, "moved from, size %d", b.t->size());
        break;
      }
      case 7: { // change one value
        if (a.m.empty())
          break;
        const int i = (int)g.choose(a.m.size()), c = (int)g.choose(8);
        *col(*a.t, c, i) = a.m[i][c] = g.real(-5, 5);
        break;
      }
      default:
        g.note("delete");
        a.t.reset();
        a.m.clear();
      }
      for (const Slot &x : s)
        if (x.t)
          same(*x.t, x.m, "table");
    }
  }
}
VP_PROP(memory, 6000, 200000, "a table was assigned to") {
  struct Op {
    int op, a, b, n;
  };
  vector<Op> ops;
  for (int k = (int)g.integer(1, 12); k > 0; --k)
    ops.push_back({(int)g.choose(6), (int)g.choose(3), (int)g.choose(3), (int)g.integer(0, 40)});
  for (const Op &o : ops)
    g.note("%d %d %d %d", o.op, o.a, o.b, o.n), g.nontrivial(o.op >= 4 || o.op == 0);
  const size_t before = live_bytes();
  {
    T t[3] = {T(1), T(10), T(20)};
    for (const Op &o : ops)
      switch (o.op) {
      case 0: t[o.a] = T(o.n); break;
      case 1: t[o.a].resize(o.n); break;
      case 2: { T x(t[o.a]); break; }
      case 3: { T x(std::move(t[o.a])); t[o.b] = x; break; }
      case 4: t[o.a] = t[o.b]; break;
      default: if (o.a != o.b) t[o.a] = std::move(t[o.b]);
      }
  }
  const size_t after = live_bytes();
  VP_CHECK(after <= before, "%zu bytes are left behind", after - before);
}
// through the order+1 entries around t
static bool lagrange(const Model &m, double t, int order, int c, long double &v, long double &scale) {
  int k = -1;
  for (size_t i = 0; i + 1 < m.size(); i++)
    if (m[i][0] <= t && t < m[i + 1][0])
      k = (int)i;
  const int h = (order + 1) / 2;
  if (k < 0 || k - h + 1 < 0 || k + h >= (int)m.size())
    return false;
  v = 0, scale = 0;
  for (int i = k - h + 1; i <= k + h; i++) {
    long double w = 1;
    for (int j = k - h + 1; j <= k + h; j++)
      if (j != i)
        w *= ((long double)t - m[j][0]) / ((long double)m[i][0] - m[j][0]);
    v += w * m[i][c];
    scale += std::fabs(w * m[i][c]);
  }
  return true;
}
struct Fix {
  double x, y, ut1, lod; // ocean tides and libration
  double zut1, zlod, zomega; // zonal tides
};
static Fix effects(double t) {
  const double jc = ((std::floor(t) - 51544.5) + (t - std::floor(t))) / 36525e0;
  Fix f;
  double a, b, c, d;
  iers2010::interp::pmut1_oceans(jc, a, b, c, d);
  f.x = a, f.y = b, f.ut1 = c, f.lod = d;
  iers2010::interp::pm_gravi(jc, a, b);
  f.x += a, f.y += b;
  iers2010::rg_zont2(jc, f.zut1, f.zlod, f.zomega);
  return f;
}
static double when(Gen &g, const Model &m, int order) {
  const int n = (int)m.size();
  const int i = (int)g.choose(n);
  switch (g.weighted({6, 2, 2, 1, 1})) {
  case 0: return m[n / 2][0] + g.real(-(n - order) / 2., (n - order) / 2.);
  case 1: return m[i][0];
  case 2: return m[i][0] + g.sign() * 1e-6 * g.real(0, 1);
  case 3: return m[0][0] - g.real(0, 3);
  default: return m[n - 1][0] + g.real(0, 3);
  }
}
VP_PROP(interpolate, 15000, 500000, "the entries needed are there") {
  const int order = (int)g.integer(0, 4) * 2 + 1;
  const int n = (int)(g.boolean(0.06) ? g.integer(21, 150) : g.integer(1, 20));
  Model m = gen_rows(g, n);
  T t(n);
  fill(t, m);
  const bool reg = g.boolean(0.5);
  if (reg) {
    t.regularize();
    for (Row &r : m) {
      const Fix f = effects(r[0]);
      r[3] -= f.zut1, r[6] -= f.zlod, r[7] -= f.zomega;
    }
    for (int i = 0; i < n; i++)
      for (int c = 0; c < 8; c++)
        VP_CHECK(near(*t.mjd(i), m[i][0], 0) && near(*ccol(t, c, i), m[i][c], c == 7 ? 1e-22 : 1e-15, 1e-12), "regularized %s of entry %d is %.15g, should be %.15g", NAME[c], i, *ccol(t, c, i), m[i][c]);
  }
  const T &ct = t;
  for (int k = 0; k < 4; k++) {
    const double q = when(g, m, order);
    g.note("order %d, %d entries from %.6f, at %.9f%s", order, n, m[0][0], q, reg ? " (regularized)" : "");
    // all fields hold rubbish
    dso::EopRecord a, b;
    a.mjd = a.xp = a.yp = a.dut = a.lod = a.dx = a.dy = a.omega = 77.25;
    b = a;
    const bool dflt = order == 5 && g.boolean();
    const int ra = dflt ? ct.interpolate_lagrange(q, a) : ct.interpolate_lagrange(q, a, order), rb = dflt ? ct.interpolate(q, b) : ct.interpolate(q, b, order);
    long double v[8], s[8];
    bool can = true;
    for (int c = 1; c < 7; c++)
      can = lagrange(m, q, order, c, v[c], s[c]) && can;
    if (!can) {
      VP_CHECK(ra != 0, "interpolate_lagrange reports nothing though the entries around %.6f are not there", q);
      VP_CHECK(rb != 0, "interpolate reports nothing though the entries around %.6f are not there", q);
      continue;
    }
    g.nontrivial();
    VP_CHECK(ra == 0 && rb == 0, "refused (%d, %d) though the entries around %.6f are there", ra, rb, q);
    VP_CHECK(a.mjd == q && b.mjd == q, "date %.9f, %.9f, should be %.9f", a.mjd, b.mjd, q);
    const double got[8] = {0, a.xp, a.yp, a.dut, a.dx, a.dy, a.lod, 0};
    for (int c = 1; c < 7; c++)
      VP_CHECK(std::fabs(got[c] - v[c]) <= 1e-11L * s[c] + 1e-15L, "%s interpolated is %.15g, should be %.15Lg", NAME[c], got[c], v[c]);
    const Fix f = effects(q);
    v[1] += f.x, v[2] += f.y, v[3] += (long double)f.ut1 + f.zut1, v[6] += (long double)f.lod + f.zlod;
    const double cor[8] = {0, b.xp, b.yp, b.dut, b.dx, b.dy, b.lod, 0};
    for (int c = 1; c < 7; c++)
      VP_CHECK(std::fabs(cor[c] - v[c]) <= 1e-11L * s[c] + 1e-10L, "%s interpolated and corrected is %.15g, should be %.15Lg", NAME[c], cor[c], v[c]);
  }
}
