// Stand-in for the geodesy library's ellipsoids (not installed here).
#ifndef VP_SHIM_GEODESY_ELLIPSOID_HPP
#define VP_SHIM_GEODESY_ELLIPSOID_HPP
#include <cmath>
namespace dso {
enum class ellipsoid { grs80, wgs84, pz90 };
template <ellipsoid E> struct ellipsoid_traits;
template <> struct ellipsoid_traits<ellipsoid::grs80> {
  static constexpr double a = 6378137e0, f = 1e0 / 298.257222101e0;
};
template <> struct ellipsoid_traits<ellipsoid::wgs84> {
  static constexpr double a = 6378137e0, f = 1e0 / 298.257223563e0;
};
template <> struct ellipsoid_traits<ellipsoid::pz90> {
  static constexpr double a = 6378135e0, f = 1e0 / 298.257839303e0;
};
template <ellipsoid E> constexpr double mean_earth_radius() noexcept {
  return ellipsoid_traits<E>::a * (1e0 - ellipsoid_traits<E>::f / 3e0);
}
} // namespace dso
#endif
