// Orbits for P13..P15.
#pragma once
#include "astrodynamics.hpp"
#include "twobody.hpp"
#include "vpbt.hpp"
namespace orb {
using ref::L;
typedef Eigen::Matrix<double, 6, 1> V6;
struct Orbit {
  double GM;
  double el[6]; // a, e, i, Omega, omega, M
  L l[6];
  dso::OrbitalElements ele() const {
    dso::OrbitalElements o;
    o.semimajor() = el[0], o.eccentricity() = el[1], o.inclination() = el[2];
    o.Omega() = el[3], o.omega() = el[4], o.mean_anomaly() = el[5];
    return o;
  }
};
inline double angle(vp::Gen &g) {
  const double pi = 3.14159265358979312;
  switch (g.weighted({6, 1, 1})) {
  case 0: return g.real(0, 2 * pi);
  case 1: return g.pick({0, 1, 2, 3}) * pi / 2;
  default: return std::fabs(g.pick({0, 1, 2, 3}) * pi / 2 + g.sign() * g.logreal(1e-12, 1e-2));
  }
}
// emin: smallest eccentricity, smin: smallest sine of the inclination
// wide: angles of any revolution
inline Orbit gen_orbit(vp::Gen &g, double emin, double emax, double smin, bool wide = false) {
  Orbit o;
  o.GM = g.boolean(0.2) ? g.logreal(1, 1e21) : 3.986004418e14;
  o.el[0] = g.boolean(0.2) ? g.logreal(1, 1e12) : g.real(6.6e6, 5e7);
  switch (g.weighted({5, 2, 2})) {
  case 0: o.el[1] = g.real(emin, 0.3); break;
  case 1: o.el[1] = emin > 0 ? g.logreal(emin, 0.1) : g.boolean(0.2) ? 0 : g.logreal(1e-12, 0.1); break;
  default: o.el[1] = g.real(0.3, emax);
  }
  switch (g.weighted({6, 1, 2})) {
  case 0: o.el[2] = g.real(smin, 3.14159265 - smin); break;
  case 1: o.el[2] = 3.14159265358979312 / 2; break;
  default:
    o.el[2] = g.logreal(smin, 1e-1);
    if (g.boolean())
      o.el[2] = 3.14159265358979312 - o.el[2];
  }
  o.el[3] = angle(g), o.el[4] = angle(g), o.el[5] = angle(g);
  if (wide && g.boolean(0.3))
    for (int i = 3; i < 6; i++)
      if (g.boolean())
        o.el[i] = g.boolean() ? -o.el[i] : o.el[i] + 6.283185307179586 * (double)g.integer(-3, 3);
  for (int i = 0; i < 6; i++)
    o.l[i] = o.el[i];
  g.note("GM %.17g a %.17g e %.17g i %.17g Omega %.17g omega %.17g M %.17g", o.GM, o.el[0], o.el[1], o.el[2],
         o.el[3], o.el[4], o.el[5]);
  return o;
}
inline ref::State to_state(const V6 &y) {
  return {{y(0), y(1), y(2)}, {y(3), y(4), y(5)}};
}
inline ref::State to_state(const dso::Vector3 &r, const dso::Vector3 &v) {
  return {{r.x(), r.y(), r.z()}, {v.x(), v.y(), v.z()}};
}
// relative distance of two states
inline L off(const ref::State &a, const ref::State &b) {
  const L d = fmaxl(norm(a.r - b.r) / norm(b.r), norm(a.v - b.v) / norm(b.v));
  return std::isfinite(d) ? d : HUGE_VALL;
}
inline std::string show(const ref::State &s) {
  return vp::fmt("[%.12Lg %.12Lg %.12Lg  %.12Lg %.12Lg %.12Lg]", s.r.x, s.r.y, s.r.z, s.v.x, s.v.y, s.v.z);
}
} // namespace orb
