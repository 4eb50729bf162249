// Polynomial and linear models.
#include "filters/models.hpp"
#include "vpbt.hpp"
#include <memory>
#include <optional>
using namespace vp;
using dt_t = dso::datetime<dso::nanoseconds>;
typedef long double ld;
// arrays alive
static long g_arrays = 0;
void *operator new[](size_t n) {
  ++g_arrays;
  return malloc(n ? n : 1);
}
void operator delete[](void *p) noexcept {
  if (p)
    --g_arrays;
  free(p);
}
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
template <class X> struct Model { // what a model object should be
  std::vector<double> c;
  X ref{};
};
static ld diff(double a, double b) { return (ld)a - b; }
static ld diff(const dt_t &a, const dt_t &b) {
  return ((ld)(a.mjd().as_underlying_type() - b.mjd().as_underlying_type()) * 86400e9L + (ld)(a.sec().as_underlying_type() - b.sec().as_underlying_type())) / 1e9L;
}
static void rnd(Gen &g, double &x) { x = g.realb(-1e3, 1e3, {0e0, 1e0}); }
static void rnd(Gen &g, dt_t &t) {
  t = dt_t(dso::modified_julian_day(g.integer(55000, 60000)), dso::nanoseconds(g.integer(0, 86400LL * 1000000000LL - 1)));
}
static double away(Gen &g, double x) { return x + g.real(-50, 50); }
static dt_t away(Gen &g, dt_t t) {
  t.add_seconds(dso::nanoseconds(g.integer(-200000LL * 1000000000LL, 200000LL * 1000000000LL)));
  return t;
}
template <class X> static void same(Gen &g, const dso::PolynomialModel<X> &p, const Model<X> &m, const char *what, int k) {
  VP_CHECK(p.order() == (int)m.c.size() - 1, "model %d after %s has order %d, should be %d", k, what, p.order(), (int)m.c.size() - 1);
  for (int i = 0; i < 2; i++) {
    const X x = i ? away(g, m.ref) : m.ref;
    const ld t = diff(x, m.ref);
    ld y = 0, mag = 0, tp = 1;
    for (double c : m.c)
      y += c * tp, mag += std::fabs(c * tp), tp *= t;
    const double v = p.value_at(x);
    VP_CHECK(std::fabs(v - (double)y) <= 2e-15 * (double)mag * (m.c.size() + 2), "model %d after %s: %.17g at %.17Lg from the reference, the polynomial gives %.17Lg", k, what, v, t, y);
  }
}
template <class X> static void history(Gen &g) {
  const int N = 3;
  std::unique_ptr<dso::PolynomialModel<X>> p[N];
  Model<X> m[N];
  bool moved[N]{};
  auto fill = [&](int k) {
    rnd(g, m[k].ref);
    p[k]->xref = m[k].ref;
    for (size_t i = 0; i < m[k].c.size(); i++)
      p[k]->cf[i] = m[k].c[i] = g.sign() * g.realb(0, 10, {0e0, 1e0}) * std::pow(std::is_arithmetic<X>::value ? 1. : 1e-4, (double)i);
  };
  auto fresh = [&](int k) {
    const int o = (int)(g.choose(5) == 0 ? g.integer(7, 20) : g.integer(0, 6));
    p[k].reset(new dso::PolynomialModel<X>(o));
    m[k].c.assign(o + 1, 0);
    moved[k] = false;
    fill(k);
  };
  const long live = g_arrays;
  for (int k = 0; k < N; k++)
    fresh(k);
  int moves = 0, copies = 0;
  const int n = (int)g.integer(1, 14);
  for (int s = 0; s < n; s++) {
    const int a = (int)g.choose(N), b = (int)g.choose(N);
    const char *what = "";
    switch (g.choose(7)) {
    case 0: what = "construction", fresh(a); break;
    case 1:
      if (moved[b] || a == b)
        continue;
      what = "copy construction", p[a].reset(new dso::PolynomialModel<X>(*p[b])), m[a] = m[b], moved[a] = false, ++copies;
      break;
    case 2:
      if (moved[b])
        continue;
      what = a == b ? "self assignment" : "copy assignment", *p[a] = *p[b], m[a] = m[b], moved[a] = false, ++copies;
      break;
    case 3:
      if (moved[b] || a == b)
        continue;
      what = "move construction", p[a].reset(new dso::PolynomialModel<X>(std::move(*p[b]))), m[a] = m[b], moved[a] = false, moved[b] = true, ++moves;
      break;
    case 4:
      if (moved[b])
        continue;
      if (a == b) {
        auto &self = *p[b];
        what = "assignment from itself", *p[a] = std::move(self);
        break;
      }
      what = "move assignment", *p[a] = std::move(*p[b]), m[a] = m[b], moved[a] = false, moved[b] = true, ++moves;
      break;
    case 5: {
      if (moved[a])
        continue;
      const int o = (int)(g.choose(5) == 0 ? g.integer(7, 20) : g.integer(0, 6));
      what = "resize";
      p[a]->resize(o);
      m[a].c.assign(o + 1, 0);
      fill(a);
      break;
    }
    default:
      if (moved[a])
        continue;
      what = "new coefficients", fill(a);
    }
    g.note("%d: %s of %d (from %d)", s, what, a, b);
    for (int k = 0; k < N; k++)
      if (!moved[k])
        same(g, *p[k], m[k], what, k);
  }
  for (auto &x : p)
    x.reset();
  VP_CHECK(g_arrays == live, "%ld arrays of coefficients lost", g_arrays - live);
  g.nontrivial(copies && moves);
}
VP_PROP(numbers, 20000, 600000, "a history with copies and moves") { history<double>(g); }
VP_PROP(dates, 20000, 600000, "a history with copies and moves") { history<dt_t>(g); }
VP_PROP(linear, 4000, 100000, "always") {
  dso::LinearModel<double> l;
  l.xref = g.real(-1e3, 1e3), l.a = g.real(-10, 10), l.b = g.real(-10, 10);
  const double x = g.real(-1e3, 1e3);
  VP_CHECK(l.order() == 1, "order");
  VP_CHECK(std::fabs(l.value_at(x) - (double)((ld)l.a + (ld)l.b * ((ld)x - l.xref))) < 1e-11, "value");
  g.nontrivial();
}
