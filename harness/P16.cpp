// Atmospheric drag and its partial derivatives.
#include "orbgen.hpp"
using namespace vp;
using namespace orb;
using ref::State;
using ref::V3;
typedef Eigen::Matrix<double, 3, 1> E3;
typedef Eigen::Matrix<double, 3, 3> M3;
namespace {
const L W = iers2010::OmegaEarth;
struct Case {
  double r[3], v[3], A, CD, m, rho, grad[3];
};
Case gen(Gen &g) {
  Case c;
  const int kind = g.weighted({4, 2, 1});
  for (int i = 0; i < 3; i++) {
    c.r[i] = kind == 0 ? g.sign() * g.real(1e5, 8e6) : kind == 1 ? g.real(-8e6, 8e6) : g.pick({0., 6.7e6, -7.1e6});
    c.v[i] = kind == 2 ? g.pick({0., 7500., -1e3}) : g.sign() * g.logreal(1e-2, 1e4);
    c.grad[i] = g.boolean(0.2) ? 0 : g.sign() * g.logreal(1e-22, 1e-14);
  }
  c.A = g.logreal(0.01, 100), c.CD = g.realb(0.5, 4, {0e0, 2.2}), c.m = g.logreal(1, 1e4);
  c.rho = g.boolean(0.03) ? 0 : g.logreal(1e-16, 1e-8);
  g.note("r %.17g %.17g %.17g v %.17g %.17g %.17g", c.r[0], c.r[1], c.r[2], c.v[0], c.v[1], c.v[2]);
  g.note("A %.17g CD %.17g m %.17g rho %.17g grad %.3g %.3g %.3g", c.A, c.CD, c.m, c.rho, c.grad[0], c.grad[1], c.grad[2]);
  return c;
}
V3 vec(const double *d) { return {d[0], d[1], d[2]}; }
V3 rel(V3 r, V3 v) { return v - ref::cross(V3{0, 0, W}, r); }
V3 accel(V3 r, V3 v, L CD, L k, L rho) {
  const V3 u = rel(r, v);
  return (-CD * k * rho / 2 * norm(u)) * u;
}
void same(const E3 &got, V3 want, L tol, const char *what) {
  const V3 d = V3{got(0), got(1), got(2)} - want;
  VP_CHECK(norm(d) <= tol, "%s: [%.12g %.12g %.12g], should be [%.12Lg %.12Lg %.12Lg]", what, got(0), got(1), got(2), want.x, want.y, want.z);
}
} // namespace
VP_PROP(acceleration, 60000, 3000000, "the wind is not zero and no component of r and v is zero") {
  const Case c = gen(g);
  const L k = (L)c.A / c.m;
  const V3 r = vec(c.r), v = vec(c.v);
  const V3 want = accel(r, v, c.CD, k, c.rho);
  const L u = norm(rel(r, v));
  // rounding of v - omega x r
  const L tol = 4e-15L * c.CD * k * c.rho * (u + 1e-3L) * (norm(v) + W * norm(r));
  same(dso::drag_accel(E3(c.r), E3(c.v), c.A, c.CD, c.m, c.rho), want, tol, "drag_accel");
  // rotated by a small or a large precession-nutation matrix
  const double ang[3] = {g.real(-3, 3), g.real(-1, 1) * (g.choose(2) ? 1e-3 : 1), g.real(-3, 3)};
  const M3 B = (Eigen::AngleAxisd(ang[0], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(ang[1], Eigen::Vector3d::UnitY()) *
                Eigen::AngleAxisd(ang[2], Eigen::Vector3d::UnitZ())).toRotationMatrix();
  auto mul = [&](V3 x, bool t) {
    auto b = [&](int i, int j) { return (L)(t ? B(j, i) : B(i, j)); };
    return V3{b(0, 0) * x.x + b(0, 1) * x.y + b(0, 2) * x.z, b(1, 0) * x.x + b(1, 1) * x.y + b(1, 2) * x.z,
              b(2, 0) * x.x + b(2, 1) * x.y + b(2, 2) * x.z};
  };
  const V3 wb = mul(accel(mul(r, false), mul(v, false), c.CD, k, c.rho), true);
  const L ub = norm(rel(mul(r, false), mul(v, false)));
  same(dso::drag_accel(E3(c.r), E3(c.v), B, c.A, c.CD, c.m, c.rho), wb,
       8e-15L * c.CD * k * c.rho * (ub + 1e-3L) * (norm(v) + W * norm(r)), "drag_accel(true of date)");
  bool nz = u > 0;
  for (int i = 0; i < 3; i++)
    nz = nz && c.r[i] != 0 && c.v[i] != 0;
  g.nontrivial(nz);
}
VP_PROP(partials, 40000, 1500000, "the wind is not zero and no component of r and v is zero") {
  const Case c = gen(g);
  const L k = (L)c.A / c.m;
  const V3 r = vec(c.r), v = vec(c.v), gr = vec(c.grad);
  const L u = norm(rel(r, v)), big = norm(v) + W * norm(r);
  if (u < 1e-3L)
    g.discard();
  M3 dr, dv;
  E3 dC;
  const E3 a = dso::drag_accel(E3(c.r), E3(c.v), c.A, c.CD, c.m, c.rho, E3(c.grad), dr, dv, dC);
  const L s = c.CD * k * c.rho;
  same(a, accel(r, v, c.CD, k, c.rho), 4e-15L * s * (u + 1e-3L) * big, "drag_accel (with partials)");
  same(dC, accel(r, v, 1, k, c.rho), 4e-15L * k * c.rho * (u + 1e-3L) * big, "partials to CD");
  // analytic, from a = -s/2 |u| u: da/du = -s/2 (|u| I + u u' / |u|)
  const V3 w = rel(r, v);
  const L uu[3] = {w.x, w.y, w.z}, gg[3] = {gr.x, gr.y, gr.z};
  L J[3][3], K[3][3];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      J[i][j] = -s / 2 * ((i == j) * u + uu[i] * uu[j] / u);
  // du/dr = -[omega x]
  const L X[3][3] = {{0, -W, 0}, {W, 0, 0}, {0, 0, 0}};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      K[i][j] = -c.CD * k / 2 * u * uu[i] * gg[j];
      for (int m = 0; m < 3; m++)
        K[i][j] -= J[i][m] * X[m][j];
    }
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      VP_CHECK(fabsl(dv(i, j) - J[i][j]) <= 1e-14L * s * big, "partials to v (%d,%d): %.12g, should be %.12Lg", i, j, dv(i, j), J[i][j]);
      VP_CHECK(fabsl(dr(i, j) - K[i][j]) <= 1e-14L * (s * big * W + c.CD * k * u * big * norm(gr)), "partials to r (%d,%d): %.12g, should be %.12Lg",
               i, j, dr(i, j), K[i][j]);
    }
  bool nz = true;
  for (int i = 0; i < 3; i++)
    nz = nz && c.r[i] != 0 && c.v[i] != 0;
  g.nontrivial(nz);
}
