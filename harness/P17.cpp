// Solar radiation pressure; the shadow of the Earth.
#include "orbgen.hpp"
#include "geodesy/ellipsoid.hpp"
using namespace vp;
using namespace orb;
using ref::V3;
typedef Eigen::Matrix<double, 3, 1> E3;
typedef Eigen::Matrix<double, 3, 3> M3;
namespace {
const L Re = iers2010::Re, Rs = iers2010::Rs, AU = iers2010::AU;
V3 unit(Gen &g) {
  // some directions along the axes
  if (g.boolean(0.15)) {
    V3 u{0, 0, 0};
    (&u.x)[g.choose(3)] = g.sign();
    return u;
  }
  for (;;) {
    V3 u{g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)};
    const L n = norm(u);
    if (n > 0.05L && n <= 1.7321L)
      return (1 / n) * u;
  }
}
V3 across(V3 u, Gen &g) {
  V3 w = unit(g);
  w = w - dot(w, u) * u;
  if (norm(w) < 1e-2L)
    w = ref::cross(u, fabsl(u.x) < 0.7L ? V3{1, 0, 0} : V3{0, 1, 0});
  return (1 / norm(w)) * w;
}
struct Geo {
  V3 sun, sat;
  dso::Vector3 dsun, dsat;
};
dso::Vector3 dv(V3 a) { return dso::Vector3((double)a.x, (double)a.y, (double)a.z); }
V3 lv(const dso::Vector3 &a) { return {a.x(), a.y(), a.z()}; }
// satellites mostly near the edge of the shadow
Geo gen(Gen &g) {
  Geo o;
  const V3 u = unit(g), w = across(u, g);
  const L D = AU * g.real(0.983, 1.017);
  const L r = Re * (1 + (g.boolean(0.7) ? g.real(0.02, 6) : g.boolean(0.7) ? g.logreal(1e-3, 60) : g.logreal(60, 1000)));
  L h; // distance from the Sun-Earth axis
  const int k = g.weighted({4, 2, 1, 2});
  if (k == 0) // near the edge
    h = Re + g.sign() * g.logreal(1, 2e5) * g.real(0.1, 1);
  else if (k == 1) // within the penumbra, whatever its width
    h = Re + g.real(-2, 2) * 4.65e-3L * r;
  else if (k == 2)
    h = 0;
  else
    h = r * g.real(0, 1);
  h = fminl(fabsl(h), r);
  const L s = sqrtl(fmaxl(0, r * r - h * h)) * (g.boolean(0.85) ? -1 : 1);
  o.dsun = dv(D * u);
  o.dsat = dv(s * u + h * w);
  o.sun = lv(o.dsun), o.sat = lv(o.dsat);
  g.note("sun %.17g %.17g %.17g sat %.17g %.17g %.17g", o.dsun.x(), o.dsun.y(), o.dsun.z(), o.dsat.x(), o.dsat.y(), o.dsat.z());
  return o;
}
L angle_between(V3 a, V3 b) { return atan2l(norm(ref::cross(a, b)), dot(a, b)); }
// covered part of a disc of radius a by one of radius b at distance c
L covered(L a, L b, L c) {
  if (c >= a + b)
    return 0;
  if (c <= b - a)
    return 1;
  if (c <= a - b)
    return b * b / (a * a);
  const L x = (c * c + a * a - b * b) / (2 * c), y = sqrtl(fmaxl(0, a * a - x * x));
  return (a * a * acosl(fmaxl(-1, fminl(1, x / a))) + b * b * acosl(fmaxl(-1, fminl(1, (c - x) / b))) - c * y) / (ref::PI * a * a);
}
} // namespace

VP_PROP(radiation_pressure, 60000, 3000000, "no component of the satellite's position is zero") {
  const Geo o = gen(g);
  const double A = g.logreal(0.01, 100), m = g.logreal(1, 1e4), C = g.realb(0.5, 2, {0e0, 1e0});
  g.note("A %.17g m %.17g C %.17g", A, m, C);
  const E3 sat(o.dsat.x(), o.dsat.y(), o.dsat.z()), sun(o.dsun.x(), o.dsun.y(), o.dsun.z());
  const V3 d = o.sat - o.sun;
  const L D = norm(d), P1 = 4.56316e-6L * ((L)A / m) * AU * AU, P = C * P1;
  const V3 want = (P / (D * D * D)) * d;
  M3 dr;
  E3 dC;
  const E3 a = dso::solar_radiation_acceleration(sat, sun, A, m, C);
  const E3 b = dso::solar_radiation_acceleration(sat, sun, A, m, C, dr, dC);
  const L mag = norm(want);
  for (const E3 *q : {&a, &b})
    VP_CHECK(norm(V3{(*q)(0), (*q)(1), (*q)(2)} - want) <= 1e-14L * mag, "solar radiation: [%.12g %.12g %.12g], should be [%.12Lg %.12Lg %.12Lg]",
             (*q)(0), (*q)(1), (*q)(2), want.x, want.y, want.z);
  VP_CHECK(norm(V3{dC(0), dC(1), dC(2)} - (P1 / (D * D * D)) * d) <= 1e-14L * P1 / (D * D), "partials to C: [%.12g %.12g %.12g]", dC(0), dC(1), dC(2));
  const L dd[3] = {d.x, d.y, d.z};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      const L w = P / (D * D * D) * ((i == j) - 3 * dd[i] * dd[j] / (D * D));
      VP_CHECK(fabsl(dr(i, j) - w) <= 2e-14L * P / (D * D * D), "partials to r (%d,%d): %.12g, should be %.12Lg", i, j, dr(i, j), w);
    }
  g.nontrivial(sat(0) * sat(1) * sat(2) != 0);
}

VP_PROP(cylinder, 60000, 3000000, "behind the Earth") {
  const Geo o = gen(g);
  const L D = norm(o.sun), s = dot(o.sat, o.sun) / D;
  const L h = norm(ref::cross(o.sat, (1 / D) * o.sun));
  const L gap = 1e-6L;
  if (fabsl(s) > gap && fabsl(h - Re) > gap) {
    const double want = s > 0 || h > Re ? 1 : 0;
    const double a = utest::montebruck_shadow(o.dsat, o.dsun);
    VP_CHECK(a == want, "montebruck_shadow = %g, should be %g (%.12Lg m off the axis, %.12Lg m sunward)", a, want, h, s);
    const double b = utest::montebruck_shadow(E3(o.dsat.x(), o.dsat.y(), o.dsat.z()), E3(o.dsun.x(), o.dsun.y(), o.dsun.z()));
    VP_CHECK(b == want, "montebruck_shadow(Eigen) = %g, should be %g (%.12Lg m off the axis, %.12Lg m sunward)", b, want, h, s);
  }
  // the flattened Earth: the same with z stretched by 1 + f
  const L f = 1 + (L)dso::ellipsoid_traits<dso::ellipsoid::grs80>::f;
  const V3 zs{o.sun.x, o.sun.y, o.sun.z * f}, zr{o.sat.x, o.sat.y, o.sat.z * f};
  const L zD = norm(zs), zc = dot(zr, zs) / zD, zh = norm(ref::cross(zr, (1 / zD) * zs));
  // the code takes h from a difference of squares
  if (fabsl(zc) > 1e-6L && fabsl(zh - Re) > 1e-4L + 1e-14L * dot(zr, zr) / Re && zh > 1e3L) {
    const double want = zc > 0 || zh > Re ? 1 : 0;
    const double a = utest::bernese_shadow1(o.dsat, o.dsun);
    VP_CHECK(a == want, "bernese_shadow1 = %g, should be %g (%.12Lg m off the axis, %.12Lg m sunward)", a, want, zh, zc);
  } else if (zh <= 1e3L && fabsl(zc) > 1e6L) {
    const double a = utest::bernese_shadow1(o.dsat, o.dsun);
    VP_CHECK(a == (zc > 0 ? 1 : 0), "bernese_shadow1 = %g on the axis", a);
  }
  g.label(s > 0 ? "sunward" : h > Re ? "beside" : "behind");
  g.nontrivial(s < 0);
}

VP_PROP(cone, 60000, 3000000, "part of the Sun is covered") {
  const Geo o = gen(g);
  const V3 d = o.sun - o.sat;
  const L te = asinl(Re / norm(o.sat)), ts = asinl(Rs / norm(d)), t = angle_between(d, -1 * o.sat);
  const double got = utest::conical_shadow(o.dsat, o.dsun);
  const L want = 1 - covered(ts, te, t);
  VP_CHECK(got >= -1e-9 && got <= 1 + 1e-9, "conical_shadow = %.17g", got);
  // the separation comes from an arc cosine
  const L dt = 4e-16L / fmaxl(t, 1e-8L) + 1e-15L;
  const L slack = 1e-7L + 4 * dt / ts;
  VP_CHECK(fabsl(got - want) <= slack, "conical_shadow = %.12g, should be %.12Lg (radii %.9Lg and %.9Lg, separation %.9Lg)", got, want, te, ts, t);
  g.label(want == 0 ? "dark" : want == 1 ? "lit" : "partly");
  g.nontrivial(want > 0 && want < 1);
}

// the three-valued cone model
VP_PROP(penumbra, 60000, 3000000, "behind the Earth and within three penumbra widths of its edge") {
  const Geo o = gen(g);
  const L D = norm(o.sun), s = dot(o.sat, o.sun) / D;
  const L h = norm(ref::cross(o.sat, (1 / D) * o.sun));
  const double got = utest::vallado_shadow(o.dsat, o.dsun);
  VP_CHECK(got == 0 || got == 0.5 || got == 1, "vallado_shadow = %.17g", got);
  // the cones tangent to both bodies, for the Sun at 1 AU
  const L ap = asinl((Rs + Re) / AU), au = asinl((Rs - Re) / AU);
  const L pen = tanl(ap) * (Re / sinl(ap) - s), umb = tanl(au) * (Re / sinl(au) + s);
  const L band = 1e-6L * norm(o.sat);
  if (s < 0 && (fabsl(h - pen) < band || fabsl(h - umb) < band || s > -1))
    g.discard();
  const double want = s >= 0 || h > pen ? 1 : h > umb ? 0.5 : 0;
  VP_CHECK(got == want, "vallado_shadow = %g, should be %g (%.9Lg m off the axis, %.9Lg m behind; penumbra to %.9Lg, umbra to %.9Lg)", got, want, h, -s,
           pen, umb);
  g.label(want == 0 ? "umbra" : want == 1 ? "lit" : "penumbra");
  g.nontrivial(s < 0 && fabsl(h - Re) < 3 * (pen - umb));
}

// all the models agree away from the edge
VP_PROP(models_agree, 30000, 1000000, "behind the Earth") {
  const Geo o = gen(g);
  const L D = norm(o.sun), s = dot(o.sat, o.sun) / D;
  const L h = norm(ref::cross(o.sat, (1 / D) * o.sun));
  const L edge = 0.006L * norm(o.sat) + 30e3L;
  const double v[4] = {utest::montebruck_shadow(o.dsat, o.dsun), utest::vallado_shadow(o.dsat, o.dsun),
                       utest::conical_shadow(o.dsat, o.dsun), utest::bernese_shadow1(o.dsat, o.dsun)};
  if (s > edge || h > Re + edge) {
    for (int i = 0; i < 4; i++)
      VP_CHECK(v[i] > 1 - 1e-9, "model %d: %g in full sunlight", i, v[i]);
  } else if (s < -edge && h < Re - edge)
    for (int i = 0; i < 4; i++)
      VP_CHECK(std::fabs(v[i]) < 1e-9, "model %d: %g in the umbra", i, v[i]);
  else
    g.discard();
  g.nontrivial(s < 0);
}
