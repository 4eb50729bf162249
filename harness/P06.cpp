// Gravity acceleration and its partials against the gradient and Hessian of
// the potential (P06: acceleration and basis functions; P07: partials).
#include <cmath>
#include <cstdlib>
#include "egravity.hpp"
#include "sphharm.hpp"
#include "vpbt.hpp"
using namespace vp;
typedef dso::Mat2D<dso::MatrixStorageType::Trapezoid> Trap;
typedef dso::Mat2D<dso::MatrixStorageType::RowWise> Dense;
namespace {
struct Case {
  int deg, ord, hdeg;
  double x, y, z, R, GM;
};
Case gen(Gen &g, int maxdeg) {
  Case c;
  c.deg = g.weighted({3, 2}) ? (int)g.integer(0, maxdeg) : (int)g.integer(0, 8);
  const int ow = g.weighted({3, 3, 1});
  c.ord = ow == 0 ? c.deg : ow == 1 ? (int)g.integer(0, c.deg) : std::min(c.deg, (int)g.integer(0, 2));
  if (maxdeg > 100) { // as far as double precision goes without normalisation
    c.deg = g.boolean() ? (int)g.integer(61, 130) : (int)g.integer(131, 240);
    c.ord = g.boolean(0.3) ? (int)g.integer(0, 2) : (int)g.integer(0, c.deg > 130 ? 20 : c.deg);
  }
  c.hdeg = c.deg + (g.boolean(0.3) ? (int)g.integer(1, 5) : 0);
  const bool unit = g.weighted({3, 1});
  c.R = unit ? g.real(0.5, 2) : 6378136.3;
  c.GM = unit ? g.real(0.5, 2) : 3.986004415e14;
  const double r = c.R * g.pick({1.0, 1.05, 1.2, 1.5, 3.0, 6.6});
  double lat = g.real(-1.5707963267948966, 1.5707963267948966), lon = g.real(-3.2, 3.2);
  switch (g.weighted({8, 1, 1, 1, 1})) {
  case 1: lat = 0; break;
  case 2: lat = g.pick({1.5707963267948966, -1.5707963267948966, 1.5707, -1.57079632}); break;
  case 3: lon = g.pick({0.0, 1.5707963267948966, 3.141592653589793, -1.5707963267948966}); break;
  case 4: lat = lon = 0; break;
  }
  c.x = r * std::cos(lat) * std::cos(lon);
  c.y = r * std::cos(lat) * std::sin(lon);
  c.z = r * std::sin(lat);
  if (g.boolean(0.05)) {
    c.x = c.y = 0;
    c.z = r;
  }
  g.note("degree %d order %d (container %d) at (%.17g, %.17g, %.17g), R %.17g, GM %.17g", c.deg, c.ord, c.hdeg, c.x, c.y, c.z, c.R, c.GM);
  return c;
}
// coefficients of about the same (normalised) size, or just one of them
void fill(Gen &g, const Case &c, dso::HarmonicCoeffs &hc) {
  const int mode = g.weighted({3, 1, 1});
  uint64_t w = g.word();
  const int n1 = (int)g.integer(0, c.deg), m1 = (int)g.integer(0, n1);
  const bool s1 = g.choose(2);
  if (mode == 2)
    g.note("only %c(%d,%d)", s1 ? 'S' : 'C', n1, m1);
  for (int n = 0; n <= c.hdeg; n++)
    for (int m = 0; m <= n; m++)
      for (int q = 0; q < (m ? 2 : 1); q++) {
        w = mix64(w);
        double v = (double(w >> 11) * 0x1p-53 - 0.5) * (double)ref::norm_factor(n, m);
        if (mode == 1 && n > 0) // earth-like decay
          v *= 1e-3 / n / n;
        if (mode == 2)
          v = n == n1 && m == m1 && (int)s1 == q ? (double)ref::norm_factor(n, m) : 0;
        if (n > c.deg)
          v = 1e3; // must not be used
        if (q)
          hc.S(n, m) = v;
        else
          hc.C(n, m) = v;
      }
}
struct Expect {
  ref::L a[3] = {0, 0, 0}, h[6] = {0, 0, 0, 0, 0, 0}, sa = 0, sh = 0;
};
Expect expected(const Case &c, const dso::HarmonicCoeffs &hc, const ref::Basis &b) {
  Expect e;
  const ref::L k = (ref::L)c.GM / c.R;
  for (int n = 0; n <= c.deg; n++)
    for (int m = 0; m <= std::min(n, c.ord); m++)
      for (int q = 0; q < (m ? 2 : 1); q++) {
        const ref::Jet &j = q ? b.W[b.at(n, m)] : b.V[b.at(n, m)];
        const ref::L co = k * (q ? hc.S(n, m) : hc.C(n, m));
        ref::L sa = 0, sh = 0;
        for (int i = 0; i < 3; i++) {
          e.a[i] += co * j.g[i];
          sa += fabsl(co * j.g[i]);
        }
        for (int i = 0; i < 6; i++) {
          e.h[i] += co * j.h[i];
          sh += fabsl(co * j.h[i]);
        }
        e.sa += sa;
        e.sh += sh;
      }
  // underflow is no error: keep a floor far below any term that matters
  e.sa += (ref::L)c.GM / c.R / c.R * 1e-18L;
  e.sh += (ref::L)c.GM / c.R / c.R / c.R * 1e-18L;
  return e;
}
void nan_fill(Trap &V, Trap &W) {
  V.fill_with(std::nan(""));
  W.fill_with(std::nan(""));
}
constexpr double TOL = 1e-11;
void check_basis(const Case &c, const Trap &V, const Trap &W, const ref::Basis &b, int l, int k) {
  for (int n = 0; n <= l; n++)
    for (int m = 0; m <= std::min(n, k); m++) {
      const ref::Jet &v = b.V[b.at(n, m)], &w = b.W[b.at(n, m)];
      // size: (R/r)^(n+1) over the normalisation
      const ref::L r = sqrtl((ref::L)c.x * c.x + (ref::L)c.y * c.y + (ref::L)c.z * c.z);
      const ref::L s = powl(c.R / r, n + 1) / ref::norm_factor(n, m) * sqrtl(2.0L * n + 1);
      VP_CHECK(fabsl(V(n, m) - v.v) <= TOL * s, "V(%d,%d) = %.17g, expected %.17Lg", n, m, V(n, m), v.v);
      VP_CHECK(fabsl(W(n, m) - w.v) <= TOL * s, "W(%d,%d) = %.17g, expected %.17Lg", n, m, W(n, m), w.v);
      if (m == 0)
        VP_CHECK(W(n, 0) == 0, "W(%d,0) is not zero", n);
    }
}
void check_acc(const char *what, const double *a, const Expect &e) {
  for (int i = 0; i < 3; i++)
    VP_CHECK(fabsl(a[i] - e.a[i]) <= TOL * e.sa, "%s: acceleration[%d] = %.17g, expected %.17Lg (terms of size %.3Lg)", what, i, a[i], e.a[i], e.sa);
}
#ifndef VARIANT_VAR
void check_part(const char *what, const Eigen::Matrix<double, 3, 3> &P, const Expect &e) {
  for (int i = 0; i < 6; i++) {
    const int p = ref::HI[i], q = ref::HJ[i];
    VP_CHECK(fabsl(P(p, q) - e.h[i]) <= TOL * e.sh, "%s: d a[%d] / d r[%d] = %.17g, expected %.17Lg (terms of size %.3Lg)", what, p, q, P(p, q), e.h[i], e.sh);
    VP_CHECK(fabsl(P(q, p) - e.h[i]) <= TOL * e.sh, "%s: d a[%d] / d r[%d] = %.17g, expected %.17Lg (terms of size %.3Lg)", what, q, p, P(q, p), e.h[i], e.sh);
  }
  VP_CHECK(fabsl(P(0, 0) + P(1, 1) + P(2, 2)) <= TOL * e.sh, "%s: trace %g", what, P.trace());
}
#endif

#if CHECK == 6
void acceleration(Gen &g, int maxdeg) {
  const Case c = gen(g, maxdeg);
  dso::HarmonicCoeffs hc(c.hdeg);
  fill(g, c, hc);
  const ref::Basis b(c.x, c.y, c.z, c.R, c.deg + 1, c.ord + 1);
  const Expect e = expected(c, hc, b);
  const int extra = g.boolean(0.3) ? (int)g.integer(1, 3) : 0;
  Trap V(c.deg + 2 + extra, c.ord + 2 + extra), W(c.deg + 2 + extra, c.ord + 2 + extra);
  nan_fill(V, W);
  VP_CHECK(!dso::lagrange_polynomials(c.x, c.y, c.z, c.R, c.deg + 1, c.ord + 1, V, W), "the polynomials are refused");
  check_basis(c, V, W, b, c.deg + 1, c.ord + 1);
#ifdef VARIANT_VAR
  double a[3];
  VP_CHECK(dso::grav_potential_accel(c.deg, c.ord, c.R, c.GM, V, W, hc, a) == 0, "an error is returned");
  check_acc("acceleration", a, e);
#else
  Eigen::Matrix<double, 3, 1> a = dso::grav_potential_accel(c.deg, c.ord, c.R, c.GM, V, W, hc);
  check_acc("acceleration", a.data(), e);
  hc.GM() = c.GM;
  hc.Re() = c.R;
  a = dso::grav_potential_accel(c.deg, c.ord, V, W, hc);
  check_acc("with the container's constants", a.data(), e);
  nan_fill(V, W);
  Eigen::Matrix<double, 3, 1> pos;
  pos << c.x, c.y, c.z;
  a = dso::grav_potential_accel(pos, c.deg, c.ord, V, W, hc);
  check_acc("from the position", a.data(), e);
  if (g.boolean(0.15)) { // the same place, and one other thing
    Case d = c;
    const int what = (int)g.choose(4);
    if (what == 0)
      hc.Re() = d.R = c.R * g.pick({0.5, 0.9, 0.999});
    else if (what == 1)
      hc.GM() = d.GM = c.GM * g.pick({0.5, 1.1});
    else if (what == 2)
      d.deg = (int)g.integer(0, c.deg), d.ord = (int)g.integer(0, std::min(c.ord, d.deg));
    else
      fill(g, d, hc);
    const ref::Basis bd(d.x, d.y, d.z, d.R, d.deg + 1, d.ord + 1);
    const Expect ed = expected(d, hc, bd);
    nan_fill(V, W);
    a = dso::grav_potential_accel(pos, d.deg, d.ord, V, W, hc);
    check_acc("from the same position", a.data(), ed);
    g.label("the same place twice");
  }
#endif
  g.nontrivial(c.deg >= 2);
  g.label(c.ord == 0 ? "zonal" : c.ord < c.deg ? "order < degree" : "order = degree");
}
#else
void partials(Gen &g, int maxdeg) {
  const Case c = gen(g, maxdeg);
  dso::HarmonicCoeffs hc(c.hdeg);
  fill(g, c, hc);
  const ref::Basis b(c.x, c.y, c.z, c.R, c.deg + 2, c.ord + 2);
  const Expect e = expected(c, hc, b);
  Trap V(c.deg + 3, c.ord + 3), W(c.deg + 3, c.ord + 3);
  nan_fill(V, W);
  VP_CHECK(!dso::lagrange_polynomials(c.x, c.y, c.z, c.R, c.deg + 2, c.ord + 2, V, W), "the polynomials are refused");
  Eigen::Matrix<double, 3, 3> P;
  P.fill(std::nan(""));
  Eigen::Matrix<double, 3, 1> a = dso::grav_potential_accel(c.deg, c.ord, c.R, c.GM, V, W, hc, P);
  check_acc("with partials", a.data(), e);
  check_part("partials", P, e);
  hc.GM() = c.GM;
  hc.Re() = c.R;
  P.fill(std::nan(""));
  a = dso::grav_potential_accel(c.deg, c.ord, V, W, hc, P);
  check_acc("with the container's constants", a.data(), e);
  check_part("with the container's constants", P, e);
  nan_fill(V, W);
  P.fill(std::nan(""));
  Eigen::Matrix<double, 3, 1> pos;
  pos << c.x, c.y, c.z;
  a = dso::grav_potential_accel(pos, c.deg, c.ord, V, W, hc, P);
  check_acc("from the position", a.data(), e);
  check_part("from the position", P, e);
  if (g.boolean(0.15)) { // the same place, and one other thing
    Case d = c;
    const int what = (int)g.choose(4);
    if (what == 0)
      hc.Re() = d.R = c.R * g.pick({0.5, 0.9, 0.999});
    else if (what == 1)
      hc.GM() = d.GM = c.GM * g.pick({0.5, 1.1});
    else if (what == 2)
      d.deg = (int)g.integer(0, c.deg), d.ord = (int)g.integer(0, std::min(c.ord, d.deg));
    else
      fill(g, d, hc);
    const ref::Basis bd(d.x, d.y, d.z, d.R, d.deg + 2, d.ord + 2);
    const Expect ed = expected(d, hc, bd);
    Trap V2(d.deg + 3, d.ord + 3), W2(d.deg + 3, d.ord + 3);
    nan_fill(V2, W2);
    nan_fill(V, W);
    P.fill(std::nan(""));
    a = dso::grav_potential_accel(pos, d.deg, d.ord, what == 2 ? V2 : V, what == 2 ? W2 : W, hc, P);
    check_acc("from the same position", a.data(), ed);
    check_part("from the same position", P, ed);
    g.label("the same place twice");
  }
  g.nontrivial(c.deg >= 2);
  g.label(c.ord == 0 ? "zonal" : c.ord < c.deg ? "order < degree" : "order = degree");
}
#endif
} // namespace

#if CHECK == 6
VP_PROP(gradient, 30000, 600000, "degree >= 2") { acceleration(g, 12); }
VP_PROP(gradient_high, 3000, 60000, "degree >= 2, up to 60") { acceleration(g, 60); }
VP_PROP(gradient_tall, 150, 6000, "always; degrees to 240") { acceleration(g, 240); }
VP_PROP(polynomials, 10000, 200000, "degree >= 2; orders above the degree must be refused") {
  Case c = gen(g, 40);
  if (g.boolean(0.1)) {
    Trap V(c.deg + 4, c.deg + 4), W(c.deg + 4, c.deg + 4);
    nan_fill(V, W);
    VP_CHECK(dso::lagrange_polynomials(c.x, c.y, c.z, c.R, c.deg, c.deg + 1 + (int)g.choose(2), V, W) != 0, "an order above the degree %d is accepted", c.deg);
    g.label("refused");
    return;
  }
  const ref::Basis b(c.x, c.y, c.z, c.R, c.deg, c.ord);
  Trap V(c.deg + 1, c.ord + 1), W(c.deg + 1, c.ord + 1);
  nan_fill(V, W);
  VP_CHECK(!dso::lagrange_polynomials(c.x, c.y, c.z, c.R, c.deg, c.ord, V, W), "the polynomials are refused");
  check_basis(c, V, W, b, c.deg, c.ord);
#ifdef DEBUG
  Dense V2(c.deg + 1, c.ord + 1), W2(c.deg + 1, c.ord + 1);
  V2.fill_with(std::nan(""));
  W2.fill_with(std::nan(""));
  VP_CHECK(!dso::lagrange_polynomials(c.x, c.y, c.z, c.R, c.deg, c.ord, V2, W2), "refused");
  for (int n = 0; n <= c.deg; n++)
    for (int m = 0; m <= std::min(n, c.ord); m++) {
      VP_CHECK(near(V2(n, m), V(n, m), 1e-13), "dense V(%d,%d) = %.17g, compact %.17g", n, m, V2(n, m), V(n, m));
      VP_CHECK(near(W2(n, m), W(n, m), 1e-13), "dense W(%d,%d) = %.17g, compact %.17g", n, m, W2(n, m), W(n, m));
    }
#endif
#ifndef VARIANT_VAR
  Eigen::Matrix<double, 3, 1> pos;
  pos << c.x, c.y, c.z;
  nan_fill(V, W);
  VP_CHECK(!dso::lagrange_polynomials(pos, c.R, c.deg, c.ord, V, W), "the polynomials are refused");
  check_basis(c, V, W, b, c.deg, c.ord);
#endif
  g.nontrivial(c.deg >= 2);
}
#else
VP_PROP(hessian, 100000, 1000000, "degree >= 2") { partials(g, 12); }
VP_PROP(hessian_high, 8000, 120000, "degree >= 2, up to 60") { partials(g, 60); }
VP_PROP(hessian_tall, 100, 5000, "always; degrees to 240") { partials(g, 240); }
#endif
