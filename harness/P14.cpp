// Two-body propagation and its partial derivatives.
#include "orbgen.hpp"
using namespace vp;
using namespace orb;
using ref::State;
typedef Eigen::Matrix<double, 6, 6> M6;
namespace {
double gen_dt(Gen &g, const Orbit &o, double revs) {
  const double n = std::sqrt(o.GM / std::pow(o.el[0], 3));
  const double dt = g.weighted({1, 5, 2}) == 0 ? 0 : g.sign() * g.logreal(1e-4, revs * 6.3) / n;
  g.note("dt %.17g", dt);
  return dt;
}
V6 state_of(const Orbit &o) {
  const State s = ref::from_elements(o.GM, o.l, 0);
  V6 y;
  y << (double)s.r.x, (double)s.r.y, (double)s.r.z, (double)s.v.x, (double)s.v.y, (double)s.v.z;
  return y;
}
void set(State &s, int i, L v) { (i < 3 ? (&s.r.x)[i] : (&s.v.x)[i - 3]) = v; }
L get(const State &s, int i) { return i < 3 ? (&s.r.x)[i] : (&s.v.x)[i - 3]; }
// scale of each component of the state
void scales(const Orbit &o, L *sc) {
  const L v = sqrtl(o.GM / o.l[0]);
  for (int i = 0; i < 3; i++)
    sc[i] = o.l[0], sc[i + 3] = v;
}
} // namespace

VP_PROP(from_elements, 40000, 2000000, "dt not zero") {
  const Orbit o = gen_orbit(g, 0, 0.95, 1e-9, true);
  const double dt = gen_dt(g, o, 200);
  const double e = o.el[1], n = std::sqrt(o.GM / std::pow(o.el[0], 3));
  const State got = to_state(dso::propagate_state(o.GM, o.ele(), dt));
  const State want = ref::from_elements(o.GM, o.l, dt);
  const L tol = (2e-14L + 4e-16L * n * fabs(dt)) / ((1 - e) * (1 - e)), d = off(got, want);
  VP_CHECK(d <= tol, "propagate_state(elements) is off by %.3Lg (allowed %.3Lg): %s, should be %s", d, tol,
           show(got).c_str(), show(want).c_str());
  g.nontrivial(dt != 0);
}

VP_PROP(from_state, 40000, 2000000, "dt not zero") {
  const Orbit o = gen_orbit(g, 0, 0.95, 1e-6);
  const double dt = gen_dt(g, o, 50);
  const bool stm = g.boolean() && o.el[1] > 1e-9;
  const double e = o.el[1], n = std::sqrt(o.GM / std::pow(o.el[0], 3)), si = std::sin(o.el[2]);
  const V6 y0 = state_of(o);
  M6 phi;
  const V6 y = stm ? dso::propagate_state(o.GM, y0, dt, phi) : dso::propagate_state(o.GM, y0, dt);
  const State want = ref::propagate(o.GM, to_state(y0), dt), got = to_state(y);
  const L tol = (2e-14L + 2e-14L / si + 2e-14L * n * fabs(dt)) / ((1 - e) * (1 - e) * (1 - e)), d = off(got, want);
  VP_CHECK(d <= tol, "propagate_state(state%s) is off by %.3Lg (allowed %.3Lg): %s, should be %s", stm ? ", partials" : "", d,
           tol, show(got).c_str(), show(want).c_str());
  g.label(stm ? "with partials" : "state only");
  g.nontrivial(dt != 0);
}

// partials with respect to the elements at epoch
VP_PROP(element_partials, 20000, 600000, "dt not zero and e > 0.01") {
  const Orbit o = gen_orbit(g, 0, 0.8, 1e-3, true);
  const double dt = gen_dt(g, o, 20);
  const double e = o.el[1], n = std::sqrt(o.GM / std::pow(o.el[0], 3));
  const M6 P = dso::state_partials(o.GM, o.ele(), dt);
  L sc[6];
  scales(o, sc);
  for (int j = 0; j < 6; j++) {
    L up[6], dn[6];
    memcpy(up, o.l, sizeof up), memcpy(dn, o.l, sizeof dn);
    const L unit = j == 0 ? o.l[0] : 1, h = 1e-6L * unit;
    up[j] += h, dn[j] -= h;
    // a one-sided, second-order difference where e cannot go below zero
    State a = ref::from_elements(o.GM, up, dt), b = ref::from_elements(o.GM, dn, dt);
    for (int i = 0; i < 6; i++) {
      L want = (get(a, i) - get(b, i)) / (2 * h);
      want *= unit / sc[i];
      const L got = P(i, j) * unit / sc[i];
      // the finite difference has an error of third order in h times the
      // third derivative, which grows with n dt (a) and near the pericentre
      const L q = 1 / (1 - e), t = 1 + n * fabs(dt);
      const L tol = (j == 0 ? 1e-10L * t * t * t : 1e-10L) * q * q * q * q * q * q + 1e-15L * t * t * q * q * q * q;
      VP_CHECK(fabsl(got - want) <= tol,
               "state_partials(%d,%d) = %.12Lg, the difference quotient is %.12Lg (scaled; allowed %.2Lg)", i, j, got, want, tol);
    }
  }
  g.nontrivial(dt != 0 && e > 0.01);
}

// the state transition matrix
VP_PROP(transition_matrix, 20000, 600000, "dt not zero, e > 0.01 and inclination over 0.01 from the equator") {
  const Orbit o = gen_orbit(g, 1e-4, 0.8, 1e-3);
  const double dt = gen_dt(g, o, 5);
  const double e = o.el[1], n = std::sqrt(o.GM / std::pow(o.el[0], 3)), si = std::sin(o.el[2]);
  const V6 y0 = state_of(o);
  M6 phi;
  dso::propagate_state(o.GM, y0, dt, phi);
  L sc[6];
  scales(o, sc);
  const State s0 = to_state(y0);
  const L q = 1 / (1 - e), t = 1 + n * fabs(dt);
  const L q8 = q * q * q * q * q * q * q * q;
  const L tol = 1e-9L * t * t * t * q8 + 1e-13L * (1 / e + 1 / si) * t * q8;
  for (int j = 0; j < 6; j++) {
    State a = s0, b = s0;
    const L h = 1e-6L * sc[j];
    set(a, j, get(s0, j) + h), set(b, j, get(s0, j) - h);
    a = ref::propagate(o.GM, a, dt), b = ref::propagate(o.GM, b, dt);
    for (int i = 0; i < 6; i++) {
      const L want = (get(a, i) - get(b, i)) / (2 * h) * sc[j] / sc[i];
      const L got = phi(i, j) * sc[j] / sc[i];
      VP_CHECK(fabsl(got - want) <= tol, "dY/dY0(%d,%d) = %.12Lg, the difference quotient is %.12Lg (scaled; allowed %.2Lg)", i, j,
               got, want, tol);
    }
  }
  g.nontrivial(dt != 0 && e > 0.01 && si > 0.01);
}

// there and back, and in two steps
VP_PROP(composition, 20000, 600000, "both steps not zero") {
  const Orbit o = gen_orbit(g, 1e-3, 0.7, 1e-2);
  const double t1 = gen_dt(g, o, 3), t2 = g.boolean(0.4) ? -t1 : gen_dt(g, o, 3);
  const double e = o.el[1], n = std::sqrt(o.GM / std::pow(o.el[0], 3)), si = std::sin(o.el[2]);
  const V6 y0 = state_of(o);
  M6 p1, p2, p;
  const V6 y1 = dso::propagate_state(o.GM, y0, t1, p1);
  const V6 y2 = dso::propagate_state(o.GM, y1, t2, p2);
  const V6 y = dso::propagate_state(o.GM, y0, t1 + t2, p);
  const L q = 1 / (1 - e), t = 1 + n * (fabs(t1) + fabs(t2));
  const L q6 = q * q * q * q * q * q;
  const L d = off(to_state(y2), to_state(y)), tol = 1e-13L * t * q6 / si;
  VP_CHECK(d <= tol, "in two steps (%g s, %g s): off by %.3Lg (allowed %.3Lg)", t1, t2, d, tol);
  L sc[6];
  scales(o, sc);
  const M6 m = p2 * p1;
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) {
      const L a = m(i, j) * sc[j] / sc[i], b = p(i, j) * sc[j] / sc[i];
      VP_CHECK(fabsl(a - b) <= 1e-12L * (1 / e + 1 / si) * t * t * q6 * q6, "transition matrices of two steps: (%d,%d) %.12Lg and %.12Lg", i, j, a, b);
    }
  g.nontrivial(t1 != 0 && t2 != 0);
}
