// Third-body point-mass acceleration and its partials.
#include <cmath>
#include <cstdlib>
#include "egravity.hpp"
#include "sphharm.hpp"
#include "vpbt.hpp"
using namespace vp;
using ref::L;
namespace {
void vec(Gen &g, double r, double *v) {
  switch (g.weighted({6, 1})) {
  case 0: {
    double z = g.real(-1, 1), a = g.real(0, 6.283185307179586), s = std::sqrt(std::fmax(0, 1 - z * z));
    v[0] = r * s * std::cos(a);
    v[1] = r * s * std::sin(a);
    v[2] = r * z;
    break;
  }
  default: {
    const int k = (int)g.choose(3);
    v[0] = v[1] = v[2] = 0;
    v[k] = r * g.sign();
  }
  }
}
} // namespace
VP_PROP(third_body, 300000, 5000000, "the satellite off the line Earth-body, or nearer the body than the Earth") {
  double GM = g.pick({4.9028e12, 1.32712440018e20, 1.0, 6.67e3});
  double rs[3], ro[3];
  const double R = g.pick({3.844e8, 1.495978707e11, 1.0, 7e6});
  vec(g, R * g.real(0.8, 1.2), ro);
  if (g.weighted({4, 1}) == 0)
    vec(g, R * g.logreal(1e-3, 1e2), rs);
  else {
    double e[3];
    vec(g, R * g.logreal(1e-3, 1), e);
    for (int i = 0; i < 3; i++)
      rs[i] = ro[i] + e[i];
    g.label("near the body");
    g.nontrivial();
  }
  L d[3], dn2 = 0, sn2 = 0, rn2 = 0, cr = 0;
  for (int i = 0; i < 3; i++) {
    d[i] = (L)rs[i] - ro[i];
    dn2 += d[i] * d[i];
    sn2 += (L)ro[i] * ro[i];
    rn2 += (L)rs[i] * rs[i];
    cr += (L)rs[i] * ro[i];
  }
  if (dn2 < 1e-8L * sn2)
    g.discard();
  g.nontrivial(fabsl(cr) < 0.99L * sqrtl(sn2 * rn2));
  g.note("sat (%.17g %.17g %.17g) body (%.17g %.17g %.17g) GM %.17g", rs[0], rs[1], rs[2], ro[0], ro[1], ro[2], GM);
  const L dn = sqrtl(dn2), sn = sqrtl(sn2);
  const L eps = 1e-15L * (8 + (sqrtl(rn2) + sn) / dn);
  L a[3];
  for (int i = 0; i < 3; i++)
    a[i] = -(L)GM * (d[i] / (dn2 * dn) + ro[i] / (sn2 * sn));
  const L sa = GM / dn2 + GM / sn2;
  auto chk = [&](const char *w, double x, double y, double z) {
    const double v[3] = {x, y, z};
    for (int i = 0; i < 3; i++)
      VP_CHECK(fabsl(v[i] - a[i]) <= eps * sa, "%s: acceleration[%d] = %.17g, expected %.17Lg", w, i, v[i], a[i]);
  };
  const dso::Vector3 v1 = dso::point_mass_accel(dso::Vector3({rs[0], rs[1], rs[2]}), dso::Vector3({ro[0], ro[1], ro[2]}), GM);
  chk("plain vectors", v1(0), v1(1), v1(2));
#ifndef VARIANT_VAR
  Eigen::Matrix<double, 3, 1> es, eo, ea;
  es << rs[0], rs[1], rs[2];
  eo << ro[0], ro[1], ro[2];
  ea = dso::point_mass_accel(GM, es, eo);
  chk("without partials", ea(0), ea(1), ea(2));
  Eigen::Matrix<double, 3, 3> P;
  P.fill(std::nan(""));
  ea = dso::point_mass_accel(GM, es, eo, P);
  chk("with partials", ea(0), ea(1), ea(2));
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      const L p = -(L)GM * ((i == j) / (dn2 * dn) - 3 * d[i] * d[j] / (dn2 * dn2 * dn));
      VP_CHECK(fabsl(P(i, j) - p) <= 4 * eps * GM / (dn2 * dn), "d a[%d] / d r[%d] = %.17g, expected %.17Lg", i, j, P(i, j), p);
    }
#endif
}
