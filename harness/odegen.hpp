// Generated initial-value problems with closed-form solutions.
#pragma once
#include "ode_ref.hpp"
#include "vpbt.hpp"
#include <memory>
namespace odegen {
using oderef::L;
using oderef::Problem;
using oderef::Vec;
struct System {
  std::vector<Problem> p;
  int n = 0;
  long nfe = 0;
  double lo = INFINITY, hi = -INFINITY;
  bool smooth = true;
  double off = 0; // the problem is that of t + off
  void f(double t, const double *y, double *yp) {
    nfe++;
    lo = std::fmin(lo, t);
    hi = std::fmax(hi, t);
    int k = 0;
    for (auto &q : p) {
      q.f(t + off, y + k, yp + k);
      k += q.n;
    }
  }
  void exact(L t, std::vector<L> &y) const {
    y.resize(n);
    int k = 0;
    for (auto &q : p) {
      q.y(t + (L)off, y.data() + k);
      k += q.n;
    }
  }
  Vec start(double t) const {
    std::vector<L> y;
    exact(t, y);
    return Vec(y.begin(), y.end());
  }
};
// a component valid for t within 30 of t0
inline Problem one(vp::Gen &g, double t0, bool &smooth, bool rough) {
  switch (g.weighted({4, 3, 3, 3, 2, 3, 3, rough ? 4u : 0u})) {
  case 0: { // damped or growing oscillation
    const double a = g.real(-0.3, 0.05), w = g.real(0.2, 3), A = g.real(0.5, 2), ph = g.real(0, 6.3);
    g.note("  oscillator: damping %.17g frequency %.17g amplitude %.17g phase %.17g", a, w, A, ph);
    return {2, "oscillator",
            [=](double, const double *y, double *d) {
              d[0] = a * y[0] - w * y[1];
              d[1] = w * y[0] + a * y[1];
            },
            [=](L t, L *y) {
              const L e = A * expl(a * (t - t0));
              y[0] = e * cosl(w * (t - t0) + ph);
              y[1] = e * sinl(w * (t - t0) + ph);
            }};
  }
  case 1: { // decay
    const double l = -g.real(0, 0.5), A = g.real(0.5, 2) * g.sign();
    g.note("  decay: %.17g from %.17g", l, A);
    return {1, "decay", [=](double, const double *y, double *d) { d[0] = l * y[0]; }, [=](L t, L *y) { y[0] = A * expl(l * (t - t0)); }};
  }
  case 2: { // quadrature of a cosine series
    const double a = g.real(0.1, 3), b = g.real(-2, 2), c = g.real(-2, 2), y0 = g.real(1, 3);
    g.note("  quadrature: frequency %.17g, %.17g cos + %.17g, from %.17g", a, b, c, y0);
    return {1, "quadrature", [=](double t, const double *, double *d) { d[0] = b * std::cos(a * (t - t0)) + c; }, [=](L t, L *y) { y[0] = y0 + b / a * sinl(a * (t - t0)) + c * (t - t0); }};
  }
  case 3: { // logistic
    const double r = g.real(0.05, 1), K = g.real(1, 4), y0 = g.real(0.05, 0.95) * K;
    g.note("  logistic: rate %.17g capacity %.17g from %.17g", r, K, y0);
    return {1, "logistic", [=](double, const double *y, double *d) { d[0] = r * y[0] * (1 - y[0] / K); }, [=](L t, L *y) { const L e = expl(-r * (t - t0)); y[0] = K / (1 + (K / (L)y0 - 1) * e); }};
  }
  case 4: { // y' = y cos
    const double w = g.real(0.3, 2), A = g.real(0.3, 1), y0 = g.real(0.5, 2) * g.sign();
    g.note("  modulated: frequency %.17g depth %.17g from %.17g", w, A, y0);
    return {1, "modulated", [=](double t, const double *y, double *d) { d[0] = y[0] * A * w * std::cos(w * t); }, [=](L t, L *y) { y[0] = y0 * expl(A * (sinl(w * t) - sinl(w * (L)t0))); }};
  }
  case 5: { // Kepler ellipse, unit semi-major axis
    const double e = g.real(0, 0.5), n = g.real(0.3, 1.5);
    g.note("  kepler: e %.17g n %.17g", e, n);
    return {4, "kepler",
            [=](double, const double *y, double *d) {
              const double r2 = y[0] * y[0] + y[1] * y[1], q = -n * n / (r2 * std::sqrt(r2));
              d[0] = y[2];
              d[1] = y[3];
              d[2] = q * y[0];
              d[3] = q * y[1];
            },
            [=](L t, L *y) {
              const L M = n * (t - t0) + 0.5L;
              L E = M;
              for (int i = 0; i < 60; i++)
                E -= (E - e * sinl(E) - M) / (1 - e * cosl(E));
              const L q = sqrtl(1 - (L)e * e), Ed = n / (1 - e * cosl(E));
              y[0] = cosl(E) - e;
              y[1] = q * sinl(E);
              y[2] = -sinl(E) * Ed;
              y[3] = q * cosl(E) * Ed;
            }};
  }
  case 6: { // polynomial
    const int k = (int)g.integer(1, 7);
    const double s = g.real(5, 40), b = g.real(0.5, 2), y0 = g.real(1, 2);
    g.note("  power: %.17g*((t-t0)/%.17g)^%d + %.17g", b, s, k, y0);
    return {1, "power", [=](double t, const double *, double *d) { d[0] = b * k / s * std::pow((t - t0) / s, k - 1); }, [=](L t, L *y) { y[0] = y0 + b * powl((t - t0) / s, k); }};
  }
  default: { // the derivative jumps
    smooth = false;
    const double c = t0 + g.real(-10, 10), a = g.real(-1, 1), b = a + g.sign() * g.logreal(0.1, 1000), y0 = g.real(1, 3);
    g.note("  jump at %.17g: slope %.17g then %.17g, from %.17g", c, a, b, y0);
    return {1, "jump", [=](double t, const double *, double *d) { d[0] = t < c ? a : b; }, [=](L t, L *y) {
              auto F = [=](L u) { return u < c ? a * (u - c) : b * (u - c); };
              y[0] = y0 + F(t) - F(t0);
            }};
  }
  }
}
inline System make(vp::Gen &g, double t0, bool rough) {
  System s;
  const int m = g.weighted({3, 2, 1}) + 1;
  for (int i = 0; i < m; i++) {
    s.p.push_back(one(g, t0, s.smooth, rough));
    s.n += s.p.back().n;
    g.label(s.p.back().name);
  }
  return s;
}
} // namespace odegen
