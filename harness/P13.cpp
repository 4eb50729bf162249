// State vectors and orbital elements.
#include "orbgen.hpp"
using namespace vp;
using namespace orb;
using ref::State;
namespace {
void angle_range(double v, const char *what, const char *fn) {
  VP_CHECK(v >= 0 && v <= 6.2831853071795872, "%s: %s = %.17g, outside [0, 2 pi]", fn, what, v);
}
struct Rounded {
  State s;
  double d[6];
};
Rounded rounded(const State &s) {
  Rounded o;
  const L v[6] = {s.r.x, s.r.y, s.r.z, s.v.x, s.v.y, s.v.z};
  for (int i = 0; i < 6; i++)
    o.d[i] = (double)v[i];
  o.s = {{o.d[0], o.d[1], o.d[2]}, {o.d[3], o.d[4], o.d[5]}};
  return o;
}
} // namespace

// elements -> state (two overloads), with a time offset
VP_PROP(elements_to_state, 60000, 3000000, "e > 0 and no angle a multiple of pi/2") {
  const Orbit o = gen_orbit(g, 0, 0.95, 1e-9, true);
  const double e = o.el[1];
  const double n = std::sqrt(o.GM / std::pow(o.el[0], 3));
  const double dt = g.boolean(0.3) ? 0 : g.sign() * g.logreal(1e-3, 300) / n;
  const bool vec = g.boolean();
  g.note("%s dt %.17g", vec ? "Vector3" : "Eigen", dt);
  const State want = ref::from_elements(o.GM, o.l, dt);
  State got;
  int st = -3;
  if (vec) {
    dso::Vector3 r, v;
    const int rc = dso::elements2state(o.ele(), dt, r, v, o.GM);
    st = rc;
    got = to_state(r, v);
  } else
    got = to_state(dso::elements2state(o.GM, dt, o.ele(), st));
  VP_CHECK(st == 0, "elements2state: status %d", st);
  const L tol = (2e-14L + 4e-16L * n * fabs(dt)) / ((1 - e) * (1 - e));
  const L d = off(got, want);
  VP_CHECK(d <= tol, "elements2state(%s) is off by %.3Lg (allowed %.3Lg): %s, should be %s", vec ? "Vector3" : "Eigen",
           d, tol, show(got).c_str(), show(want).c_str());
  bool plain = e > 0;
  for (int i = 3; i < 6; i++)
    plain = plain && std::fabs(std::sin(2 * o.el[i])) > 1e-9;
  g.nontrivial(plain);
}

// state -> elements (two overloads), then back through the reference
VP_PROP(state_to_elements, 60000, 3000000, "e between 1e-3 and 0.9, inclination over 1e-3 from the equator") {
  const Orbit o = gen_orbit(g, 0, 0.95, 1e-6);
  const double e = o.el[1], si = std::sin(o.el[2]);
  const Rounded y = rounded(ref::from_elements(o.GM, o.l, 0));
  const bool vec = g.boolean();
  g.note("%s", vec ? "Vector3" : "Eigen");
  dso::OrbitalElements q;
  if (vec) {
    const int st = dso::state2elements(dso::Vector3(y.d[0], y.d[1], y.d[2]), dso::Vector3(y.d[3], y.d[4], y.d[5]), q, o.GM);
    VP_CHECK(st == 0, "state2elements: status %d", st);
  } else
    q = dso::state2elements(o.GM, V6(y.d));
  const char *fn = vec ? "state2elements(Vector3)" : "state2elements(Eigen)";
  angle_range(q.Omega(), "Omega", fn);
  angle_range(q.omega(), "omega", fn);
  angle_range(q.mean_anomaly(), "M", fn);
  VP_CHECK(q.inclination() >= 0 && q.inclination() <= 3.1415926535897936, "%s: inclination %.17g", fn, q.inclination());
  const double amp = 1 / ((1 - e) * (1 - e));
  VP_CHECK(near(q.semimajor(), o.el[0], 2e-14 * amp), "%s: a = %.17g, should be %.17g", fn, q.semimajor(), o.el[0]);
  VP_CHECK(near(q.eccentricity(), e, 0, 2e-14 * amp), "%s: e = %.17g, should be %.17g", fn, q.eccentricity(), e);
  VP_CHECK(near(q.inclination(), o.el[2], 0, 2e-14 * amp), "%s: i = %.17g, should be %.17g", fn, q.inclination(), o.el[2]);
  VP_CHECK(fabsl(ref::adiff(q.Omega(), o.l[3])) <= 2e-14L * amp / si, "%s: Omega = %.17g, should be %.17g", fn, q.Omega(), o.el[3]);
  const L el[6] = {q.semimajor(), q.eccentricity(), q.inclination(), q.Omega(), q.omega(), q.mean_anomaly()};
  const State back = ref::from_elements(o.GM, el, 0);
  const L tol = (1e-14L + 1e-14L / si) * amp * (1 / (1 - e));
  const L d = off(back, y.s);
  VP_CHECK(d <= tol, "%s: the elements describe a state off by %.3Lg (allowed %.3Lg): %s, was %s", fn, d, tol,
           show(back).c_str(), show(y.s).c_str());
  if (e > 1e-12) {
    VP_CHECK(fabsl(ref::adiff(q.omega(), o.l[4])) <= 4e-14L * amp * (1 / si + 1 / e), "%s: omega = %.17g, should be %.17g (e=%g)", fn,
             q.omega(), o.el[4], e);
    VP_CHECK(fabsl(ref::adiff(q.mean_anomaly(), o.l[5])) <= 4e-14L * amp * (1 + 1 / e), "%s: M = %.17g, should be %.17g (e=%g)", fn,
             q.mean_anomaly(), o.el[5], e);
  }
  g.nontrivial(e > 1e-3 && e < 0.9 && si > 1e-3);
  g.label(e < 1e-6 ? "circular" : e > 0.9 ? "eccentric" : "ordinary");
}

// the (h, i, Omega, e, omega, theta) family
VP_PROP(state_to_kepler, 60000, 3000000, "e between 1e-3 and 0.9, inclination over 1e-3 from the equator") {
  const Orbit o = gen_orbit(g, 1e-7, 0.95, 1e-6);
  const double e = o.el[1], si = std::sin(o.el[2]);
  const Rounded y = rounded(ref::from_elements(o.GM, o.l, 0));
  const int which = (int)g.choose(3);
  const char *names[] = {"state2kepler", "state2kepler_vallado", "state2kepler_montenbruck"};
  const char *fn = names[which];
  g.note("%s", fn);
  double k[6];
  const int st = which == 0   ? dso::state2kepler(y.d, k, o.GM)
                 : which == 1 ? dso::alternatives::state2kepler_vallado(y.d, k, o.GM)
                              : dso::alternatives::state2kepler_montenbruck(y.d, k, o.GM);
  VP_CHECK(st == 0, "%s: status %d", fn, st);
  for (int i = 0; i < 6; i++)
    VP_CHECK(std::isfinite(k[i]), "%s: element %d is %g (state %s)", fn, i, k[i], show(y.s).c_str());
  angle_range(k[2], "Omega", fn);
  angle_range(k[4], "omega", fn);
  angle_range(k[5], "true anomaly", fn);
  VP_CHECK(k[1] >= 0 && k[1] <= 3.1415926535897936, "%s: inclination %.17g", fn, k[1]);
  const L h = sqrtl(o.GM * o.l[0] * (1 - o.l[1]) * (1 + o.l[1]));
  const double amp = 1 / ((1 - e) * (1 - e));
  VP_CHECK(near(k[0], (double)h, 1e-14 * amp), "%s: h = %.17g, should be %.17Lg", fn, k[0], h);
  // sqrt(1 - p/a) and arc cosines lose half the digits at the edges of their range
  const double edge = 1e-7;
  const double etol = which == 2 ? 1e-14 * amp * (1 + 1 / e) : 1e-14 * amp;
  VP_CHECK(near(k[3], e, 0, etol), "%s: e = %.17g, should be %.17g", fn, k[3], e);
  VP_CHECK(near(k[1], o.el[2], 0, which == 2 ? 1e-14 * amp : std::fmin(edge, 1e-14 / si) * amp), "%s: i = %.17g, should be %.17g", fn, k[1], o.el[2]);
  const State back = ref::from_theta(o.GM, k[0], k[1], k[2], k[3], k[4], k[5]);
  const L d = off(back, y.s);
  const L tol = (edge + 1e-14L / (e * e) + 1e-14L / si) * amp / (1 - e);
  VP_CHECK(d <= tol, "%s: the elements describe a state off by %.3Lg (allowed %.3Lg): %s, was %s", fn, d, tol,
           show(back).c_str(), show(y.s).c_str());
  // the angles themselves, away from those edges
  const L E = ref::kepler(o.l[1], o.l[5]);
  const L th = ref::wrap(2 * atan2l(sqrtl(1 + o.l[1]) * sinl(E / 2), sqrtl(1 - o.l[1]) * cosl(E / 2)));
  const double atol = (edge + 2e-14 / (e * e) + 1e-14 / si) * amp;
  VP_CHECK(fabsl(ref::adiff(k[2], o.l[3])) <= atol, "%s: Omega = %.17g, should be %.17g", fn, k[2], o.el[3]);
  VP_CHECK(fabsl(ref::adiff(k[4], o.l[4])) <= atol, "%s: omega = %.17g, should be %.17g", fn, k[4], o.el[4]);
  VP_CHECK(fabsl(ref::adiff(k[5], th)) <= atol, "%s: true anomaly = %.17g, should be %.17Lg", fn, k[5], th);
  g.nontrivial(e > 1e-3 && e < 0.9 && si > 1e-3);
  g.label(fn);
}

// crossing the equator upwards exactly on the x axis, at perigee or apogee: the angles are 0 or pi, not 2 pi
VP_PROP(on_the_axis, 6000, 200000, "on either side, at perigee or apogee") {
  const double GM = 398600.4418e9, x = g.sign() * g.real(6.6e6, 4e7), circ = std::sqrt(GM / std::fabs(x));
  const bool perigee = g.boolean();
  const double e = g.real(0.02, 0.9), v = circ * std::sqrt(perigee ? 1 + e : 1 - e), i = g.real(0.01, 3.13);
  // prograde or not: the speed along y has the sign of x cos i
  const double s[6] = {x, 0, 0, 0, (x > 0 ? 1 : -1) * v * std::cos(i), v * std::sin(i)};
  const int which = (int)g.choose(5);
  const char *names[] = {"state2kepler", "state2kepler_vallado", "state2kepler_montenbruck", "state2elements(Vector3)", "state2elements(Eigen)"};
  const char *fn = names[which];
  g.note("%s: x %.17g v (0 %.17g %.17g)", fn, s[0], s[4], s[5]);
  double Om, om, th, inc;
  if (which < 3) {
    double k[6];
    const int st = which == 0   ? dso::state2kepler(s, k, GM)
                   : which == 1 ? dso::alternatives::state2kepler_vallado(s, k, GM)
                                : dso::alternatives::state2kepler_montenbruck(s, k, GM);
    VP_CHECK(st == 0, "%s: status %d", fn, st);
    Om = k[2], om = k[4], th = k[5], inc = k[1];
  } else {
    dso::OrbitalElements q;
    if (which == 3)
      VP_CHECK(dso::state2elements(dso::Vector3(s[0], s[1], s[2]), dso::Vector3(s[3], s[4], s[5]), q, GM) == 0, "%s fails", fn);
    else
      q = dso::state2elements(GM, V6(s));
    Om = q.Omega(), om = q.omega(), th = q.mean_anomaly(), inc = q.inclination();
  }
  const double half = 3.14159265358979324;
  VP_CHECK(near(inc, i, 0, 1e-6), "%s: i = %.17g, should be %.17g", fn, inc, i);
  // 0 is the lowest value there is, and there is nothing to round
  VP_CHECK(Om >= 0 && Om < 6 && near(Om, x > 0 ? 0 : half, 0, 1e-6), "%s: Omega = %.17g, should be %.17g", fn, Om, x > 0 ? 0 : half);
  // these two may be a hair below 0
  angle_range(om, "omega", fn), angle_range(th, "anomaly", fn);
  VP_CHECK(fabsl(ref::adiff(om, perigee ? 0 : half)) < 1e-5L, "%s: omega = %.17g, should be %.17g", fn, om, perigee ? 0 : half);
  VP_CHECK(fabsl(ref::adiff(th, perigee ? 0 : half)) < 1e-5L, "%s: anomaly = %.17g, should be %.17g", fn, th, perigee ? 0 : half);
  g.nontrivial(true);
  g.label(x > 0 ? perigee ? "node, perigee" : "node, apogee" : perigee ? "other side, perigee" : "other side, apogee");
}
