// Perifocal coordinates; right ascension and declination.
#include "orbgen.hpp"
using namespace vp;
using namespace orb;
using ref::State;
using ref::V3;
VP_PROP(rotation, 60000, 3000000, "no angle a multiple of pi/2") {
  const double O = angle(g), w = angle(g), i = g.realb(0, 3.141592653589793, {0, 1.5707963267948966, 3.141592653589793});
  g.note("Omega %.17g omega %.17g i %.17g", O, w, i);
  const dso::Mat3x3 T = dso::perifocal2equatorial_matrix(O, w, i);
  V3 P, Q;
  ref::frame(O, w, i, P, Q);
  const V3 W = ref::cross(P, Q);
  const V3 c[3] = {P, Q, W};
  for (int k = 0; k < 3; k++) {
    const L want[3] = {c[k].x, c[k].y, c[k].z};
    for (int r = 0; r < 3; r++)
      VP_CHECK(fabsl(T(r, k) - want[r]) <= 1e-15L, "perifocal2equatorial_matrix(%d,%d) = %.17g, should be %.17Lg", r, k, T(r, k), want[r]);
  }
  // both directions, both interfaces
  dso::OrbitalElements ele;
  ele.Omega() = O, ele.omega() = w, ele.inclination() = i;
  ele.semimajor() = 7e6, ele.eccentricity() = 0.1;
  V6 y;
  for (int k = 0; k < 6; k++)
    y(k) = g.sign() * g.logreal(1e-2, 1e7);
  if (g.boolean(0.5))
    y(2) = y(5) = 0;
  else if (g.boolean(0.3))
    y(g.choose(6)) = 0;
  const dso::Vector3 r(y(0), y(1), y(2)), v(y(3), y(4), y(5));
  const State s = to_state(y);
  State want{s.r.x * P + s.r.y * Q + s.r.z * W, s.v.x * P + s.v.y * Q + s.v.z * W};
  dso::Vector3 a, b;
  VP_CHECK(dso::perifocal2equatorial(ele, r, v, a, b) == 0, "perifocal2equatorial: status");
  VP_CHECK(off(to_state(a, b), want) <= 2e-15L, "perifocal2equatorial(Vector3): %s, should be %s", show(to_state(a, b)).c_str(), show(want).c_str());
  State got = to_state(dso::perifocal2equatorial(ele, y));
  VP_CHECK(off(got, want) <= 2e-15L, "perifocal2equatorial(Eigen): %s, should be %s", show(got).c_str(), show(want).c_str());
  want = {{dot(s.r, P), dot(s.r, Q), dot(s.r, W)}, {dot(s.v, P), dot(s.v, Q), dot(s.v, W)}};
  VP_CHECK(dso::equatorial2perifocal(ele, r, v, a, b) == 0, "equatorial2perifocal: status");
  VP_CHECK(off(to_state(a, b), want) <= 2e-15L, "equatorial2perifocal(Vector3): %s, should be %s", show(to_state(a, b)).c_str(), show(want).c_str());
  got = to_state(dso::equatorial2perifocal(ele, y));
  VP_CHECK(off(got, want) <= 2e-15L, "equatorial2perifocal(Eigen): %s, should be %s", show(got).c_str(), show(want).c_str());
  g.nontrivial(std::fabs(std::sin(2 * O) * std::sin(2 * w) * std::sin(2 * i)) > 1e-9);
}
VP_PROP(from_elements, 40000, 2000000, "e > 0") {
  const Orbit o = gen_orbit(g, 0, 0.95, 1e-9, true);
  const double e = o.el[1], n = std::sqrt(o.GM / std::pow(o.el[0], 3));
  const int how = (int)g.choose(3);
  const double dt = how == 1 ? g.sign() * g.logreal(1e-3, 100) / n : 0;
  L el[6];
  memcpy(el, o.l, sizeof el);
  el[2] = el[3] = el[4] = 0;
  const double E = (double)ref::kepler(o.l[1], o.l[5]);
  g.note("how %d dt %.17g", how, dt);
  const State want = how == 2 ? ref::from_E(o.GM, el, E) : ref::from_elements(o.GM, el, dt);
  const State got = to_state(how == 0   ? dso::elements2perifocal(o.GM, o.ele())
                             : how == 1 ? dso::elements2perifocal(o.GM, o.ele(), dt)
                                        : dso::core::elements2perifocal(o.GM, E, e, o.el[0]));
  const L tol = (2e-14L + 4e-16L * n * fabs(dt)) / ((1 - e) * (1 - e));
  VP_CHECK(off(got, want) <= tol, "elements2perifocal: %s, should be %s", show(got).c_str(), show(want).c_str());
  VP_CHECK(got.r.z == 0 && got.v.z == 0, "elements2perifocal leaves the orbital plane: %s", show(got).c_str());
  g.label(how == 0 ? "epoch" : how == 1 ? "after dt" : "given E");
  g.nontrivial(e > 0);
}
VP_PROP(right_ascension, 60000, 3000000, "none of the components zero") {
  double p[3];
  const double scale = g.logreal(1e-3, 1e12);
  for (double &x : p)
    switch (g.weighted({6, 1, 1})) {
    case 0: x = scale * g.real(0, 1) * g.sign(); break;
    case 1: x = 0; break;
    default: x = scale * g.logreal(1e-18, 1e-1) * g.sign();
    }
  g.note("%.17g %.17g %.17g", p[0], p[1], p[2]);
  if (p[0] == 0 && p[1] == 0 && p[2] == 0)
    g.discard();
  double a = -9, d = -9;
  const int st = dso::pos2ad(dso::Vector3(p[0], p[1], p[2]), a, d);
  VP_CHECK(st == 0, "pos2ad: status %d", st);
  VP_CHECK(a >= 0 && a <= 6.2831853071795872, "pos2ad(%g %g %g): right ascension %.17g", p[0], p[1], p[2], a);
  VP_CHECK(d >= -1.5707963267948968 && d <= 1.5707963267948968, "pos2ad(%g %g %g): declination %.17g", p[0], p[1], p[2], d);
  const V3 x{p[0], p[1], p[2]};
  const L r = norm(x);
  const V3 u{cosl(d) * cosl(a), cosl(d) * sinl(a), sinl(d)};
  VP_CHECK(norm(u - (1 / r) * x) <= 1e-12L, "pos2ad(%g %g %g) = %.17g %.17g: another direction", p[0], p[1], p[2], a, d);
  g.nontrivial(p[0] != 0 && p[1] != 0 && p[2] != 0);
}
