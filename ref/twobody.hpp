// Two-body motion in long double, written from the textbook definitions.
#pragma once
#include <array>
#include <cmath>
namespace ref {
typedef long double L;
constexpr L PI = 3.141592653589793238462643383279502884L;
struct V3 {
  L x, y, z;
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(L s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline L dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
inline L norm(V3 a) { return sqrtl(dot(a, a)); }
struct State {
  V3 r, v;
};
// an angle to [0, 2 pi)
inline L wrap(L a) {
  a = fmodl(a, 2 * PI);
  return a < 0 ? a + 2 * PI : a;
}
// signed distance of two angles
inline L adiff(L a, L b) { return remainderl(a - b, 2 * PI); }

// E - e sin E = M by bisection and a final Newton step
inline L kepler(L e, L M) {
  const L k = floorl(M / (2 * PI) + 0.5L);
  const L m = M - k * 2 * PI; // [-pi, pi]
  L lo = -PI - 1e-15L, hi = PI + 1e-15L;
  for (int i = 0; i < 40; i++) {
    const L c = (lo + hi) / 2;
    (c - e * sinl(c) < m ? lo : hi) = c;
  }
  L E = (lo + hi) / 2;
  for (int i = 0; i < 6; i++) {
    const L d = 1 - e * cosl(E);
    if (d <= 0)
      break;
    const L n = E - (E - e * sinl(E) - m) / d;
    if (!(n >= lo - 1e-11L && n <= hi + 1e-11L))
      break;
    E = n;
  }
  return E + k * 2 * PI;
}
// unit vectors towards the pericentre (P), 90 degrees ahead (Q)
inline void frame(L Omega, L omega, L i, V3 &P, V3 &Q) {
  const V3 n{cosl(Omega), sinl(Omega), 0};
  const V3 m{-sinl(Omega) * cosl(i), cosl(Omega) * cosl(i), sinl(i)};
  P = cosl(omega) * n + sinl(omega) * m;
  Q = -sinl(omega) * n + cosl(omega) * m;
}
// el: a, e, i, Omega, omega, M
inline State from_E(L GM, const L *el, L E) {
  const L a = el[0], e = el[1];
  V3 P, Q;
  frame(el[3], el[4], el[2], P, Q);
  const L b = a * sqrtl((1 - e) * (1 + e));
  const L Ed = sqrtl(GM / (a * a * a)) / (1 - e * cosl(E));
  State s;
  s.r = (a * (cosl(E) - e)) * P + (b * sinl(E)) * Q;
  s.v = (-a * Ed * sinl(E)) * P + (b * Ed * cosl(E)) * Q;
  return s;
}
inline State from_elements(L GM, const L *el, L dt) {
  const L a = el[0];
  return from_E(GM, el, kepler(el[1], el[5] + sqrtl(GM / (a * a * a)) * dt));
}
// h, i, Omega, e, omega, theta
inline State from_theta(L GM, L h, L i, L Omega, L e, L omega, L th) {
  V3 P, Q;
  frame(Omega, omega, i, P, Q);
  const L r = h * h / GM / (1 + e * cosl(th));
  return {(r * cosl(th)) * P + (r * sinl(th)) * Q,
          (-GM / h * sinl(th)) * P + (GM / h * (e + cosl(th))) * Q};
}
// state after dt, from the Lagrange coefficients in the eccentric anomaly
// difference: regular for circular and equatorial orbits alike
inline State propagate(L GM, State s, L dt) {
  const L r0 = norm(s.r), a = 1 / (2 / r0 - dot(s.v, s.v) / GM);
  const L n = sqrtl(GM / (a * a * a));
  const L sg = dot(s.r, s.v) / sqrtl(GM * a); // e sin E0
  const L c0 = 1 - r0 / a;                    // e cos E0
  // n dt = x + sg (1 - cos x) - c0 sin x
  const L full = floorl(n * dt / (2 * PI) + 0.5L);
  const L m = n * dt - full * 2 * PI;
  L lo = m - 2.1L, hi = m + 2.1L;
  auto F = [&](L x) { return x + sg * (1 - cosl(x)) - c0 * sinl(x) - m; };
  for (int i = 0; i < 40; i++) {
    const L c = (lo + hi) / 2;
    (F(c) < 0 ? lo : hi) = c;
  }
  L x = (lo + hi) / 2;
  for (int i = 0; i < 6; i++)
    x -= F(x) / (1 + sg * sinl(x) - c0 * cosl(x));
  const L cx = cosl(x), sx = sinl(x);
  const L r = a * (1 + sg * sx - c0 * cx);
  const L f = 1 - a / r0 * (1 - cx), gg = (m - x + sx) / n;
  const L fd = -sqrtl(GM * a) / (r * r0) * sx, gd = 1 - a / r * (1 - cx);
  return {f * s.r + gg * s.v, fd * s.r + gd * s.v};
}
} // namespace ref
