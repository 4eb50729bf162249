// Stand-in for the iers2010 library's IAU routines (not installed here).
// Fundamental arguments, Earth rotation angle, s' and the matrices are those of
// the standards; X, Y and s hold precession and the largest nutation terms only.
#ifndef VP_SHIM_IAU_HPP
#define VP_SHIM_IAU_HPP
#include "iers2010/iersc.hpp"
#include "eigen3/Eigen/Dense"
#include "eigen3/Eigen/Geometry"
#include <cmath>
namespace iers2010 {
namespace sofa {
inline double vp_jc(double a, double b) noexcept { return ((a - 2451545e0) + b) / 36525e0; }
inline double vp_fa(double t, double c0, double c1, double c2, double c3, double c4) noexcept {
  return std::fmod(c0 + t * (c1 + t * (c2 + t * (c3 + t * c4))), TURNAS) * DAS2R;
}
inline double fal03(double t) noexcept { return vp_fa(t, 485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470); }
inline double falp03(double t) noexcept { return vp_fa(t, 1287104.793048, 129596581.0481, -0.5532, 0.000136, -0.00001149); }
inline double faf03(double t) noexcept { return vp_fa(t, 335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417); }
inline double fad03(double t) noexcept { return vp_fa(t, 1072260.703692, 1602961601.2090, -6.3706, 0.006593, -0.00003169); }
inline double faom03(double t) noexcept { return vp_fa(t, 450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939); }
inline void xy06(double a, double b, double &x, double &y) noexcept {
  const double t = vp_jc(a, b), om = faom03(t);
  x = (-0.016617 + t * (2004.191898 - 0.4297829 * t) - 6.844318 * std::sin(om)) * DAS2R;
  y = (-0.006951 + t * (-0.025896 - 22.4072747 * t) + 9.205236 * std::cos(om)) * DAS2R;
}
inline double s06(double a, double b, double x, double y) noexcept {
  const double t = vp_jc(a, b);
  return (94e-6 + 3808.65e-6 * t - 2640.73e-6 * std::sin(faom03(t))) * DAS2R - x * y / 2e0;
}
inline double sp00(double a, double b) noexcept { return -47e-6 * vp_jc(a, b) * DAS2R; }
inline double era00(double a, double b) noexcept {
  const double t = b + (a - 2451545e0);
  const double f = std::fmod(a, 1e0) + std::fmod(b, 1e0);
  double th = std::fmod(D2PI * (f + 0.7790572732640 + 0.00273781191135448 * t), D2PI);
  return th < 0e0 ? th + D2PI : th;
}
// rotations of the axes
inline Eigen::Matrix<double, 3, 3> vp_r(int k, double a) noexcept {
  Eigen::Matrix<double, 3, 3> m = Eigen::Matrix<double, 3, 3>::Identity();
  const int i = (k + 1) % 3, j = (k + 2) % 3;
  m(i, i) = m(j, j) = std::cos(a);
  m(i, j) = std::sin(a), m(j, i) = -std::sin(a);
  return m;
}
inline Eigen::Matrix<double, 3, 3> c2ixys_e(double x, double y, double s) noexcept {
  const double r2 = x * x + y * y;
  const double e = r2 > 0e0 ? std::atan2(y, x) : 0e0, d = std::atan(std::sqrt(r2 / (1e0 - r2)));
  return vp_r(2, -(e + s)) * vp_r(1, d) * vp_r(2, e);
}
inline Eigen::Matrix<double, 3, 3> pom00_e(double xp, double yp, double sp) noexcept {
  return vp_r(0, -yp) * vp_r(1, -xp) * vp_r(2, sp);
}
} // namespace sofa
} // namespace iers2010
#endif
