// Stand-in for the geodesy library's units (not installed here).
#ifndef VP_SHIM_GEODESY_UNITS_HPP
#define VP_SHIM_GEODESY_UNITS_HPP
#include <cmath>
namespace dso {
constexpr double DPI = 3.141592653589793238462643e0;
constexpr double D2PI = 6.283185307179586476925287e0;
enum class AngleUnit { Radians, Degrees, Seconds };
template <typename T> constexpr T deg2rad(T d) noexcept { return d * (DPI / 180e0); }
template <typename T> constexpr T rad2deg(T r) noexcept { return r * (180e0 / DPI); }
template <typename T> constexpr T arcsec2rad(T s) noexcept { return s * (DPI / 648000e0); }
template <typename T> constexpr T rad2sec(T r) noexcept { return r * (648000e0 / DPI); }
// angle to [0, full circle)
template <typename T, AngleUnit U> T norm_angle(T a) noexcept {
  const T full = U == AngleUnit::Radians ? D2PI : U == AngleUnit::Degrees ? 360e0 : 1296000e0;
  a = std::fmod(a, full);
  return a < 0 ? a + full : a;
}
} // namespace dso
#endif
