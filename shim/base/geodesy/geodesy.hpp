// Stand-in for the geodesy library's transformations (not installed here).
#ifndef VP_SHIM_GEODESY_HPP
#define VP_SHIM_GEODESY_HPP
#include "ellipsoid.hpp"
#include "units.hpp"
#include "matvec/matvec.hpp"
#include "eigen3/Eigen/Eigen"
namespace dso {
// cartesian to (longitude, latitude, height), radians and metres
template <ellipsoid E, typename V> V car2ell(const V &r) noexcept {
  const double a = ellipsoid_traits<E>::a, f = ellipsoid_traits<E>::f;
  const double e2 = f * (2e0 - f);
  const double p = std::sqrt(r(0) * r(0) + r(1) * r(1));
  double lat = std::atan2(r(2), p * (1e0 - e2)), N = a;
  for (int i = 0; i < 12; i++) {
    const double s = std::sin(lat);
    N = a / std::sqrt(1e0 - e2 * s * s);
    lat = std::atan2(r(2) + e2 * N * s, p);
  }
  const double c = std::cos(lat), s = std::sin(lat);
  const double h = p * c + r(2) * s - a * std::sqrt(1e0 - e2 * s * s);
  V out;
  out(0) = std::atan2(r(1), r(0));
  out(1) = lat;
  out(2) = h;
  return out;
}
// (longitude, latitude, height) to cartesian
template <ellipsoid E, typename V> V ell2car(const V &l) noexcept {
  const double a = ellipsoid_traits<E>::a, f = ellipsoid_traits<E>::f;
  const double e2 = f * (2e0 - f);
  const double s = std::sin(l(1)), c = std::cos(l(1));
  const double N = a / std::sqrt(1e0 - e2 * s * s);
  V out;
  out(0) = (N + l(2)) * c * std::cos(l(0));
  out(1) = (N + l(2)) * c * std::sin(l(0));
  out(2) = (N * (1e0 - e2) + l(2)) * s;
  return out;
}
} // namespace dso
#endif
