// Stand-in for the iers2010 library (not installed here).  Interpolation is
// the Lagrange interpolation of the IERS routine INTERP.F; the tidal and
// libration corrections are smooth functions of the same size, argument and
// units as the library's, not its series.
#ifndef VP_SHIM_IERS2010_HPP
#define VP_SHIM_IERS2010_HPP
#include "iers2010/iersc.hpp"
#include <cmath>
namespace iers2010 {
// zonal tides: [sec], [sec/day], [rad/sec]
inline int rg_zont2(double jc, double &dut, double &dlod, double &domega) noexcept {
  const double d = jc * 36525e0;
  dut = 7.8e-4 * std::sin(d * 0.4599) + 3.5e-4 * std::cos(d * 0.2280);
  dlod = 3.6e-4 * std::cos(d * 0.4599) - 0.8e-4 * std::sin(d * 0.2280);
  domega = -8.4e-13 * std::cos(d * 0.4599 + 0.3);
  return 0;
}
namespace interp {
// ocean tides: [arcsec], [arcsec], [sec], [sec/day]
inline int pmut1_oceans(double jc, double &x, double &y, double &ut1, double &lod) noexcept {
  const double d = jc * 36525e0;
  x = 3.1e-4 * std::sin(d * 12.5), y = 2.2e-4 * std::cos(d * 12.5 + 0.4);
  ut1 = 2.9e-5 * std::sin(d * 6.3 + 1), lod = 5.5e-5 * std::cos(d * 6.3);
  return 0;
}
// libration: [arcsec]
inline int pm_gravi(double jc, double &x, double &y) noexcept {
  const double d = jc * 36525e0;
  x = 4.1e-5 * std::cos(d * 6.1), y = 3.6e-5 * std::sin(d * 6.1 + 2);
  return 0;
}
// through the order+1 nodes around xint ((order+1)/2 on each side); an error
// if there are not as many.  index: the interval, searched for if negative
inline int lagint(const double *x, const double *y, int n, double xint, double &yout, int &index, int order) noexcept {
  const int h = (order + 1) / 2;
  if (order < 1 || order % 2 == 0 || n < order + 1)
    return 1;
  if (index < 0 || index > n - 2 || !(x[index] <= xint && xint < x[index + 1])) {
    index = -1;
    for (int i = 0; i < n - 1; i++)
      if (x[i] <= xint && xint < x[i + 1])
        index = i;
    if (index < 0)
      return 1;
  }
  const int a = index - h + 1, b = index + h;
  if (a < 0 || b >= n)
    return 1;
  yout = 0e0;
  for (int i = a; i <= b; i++) {
    double t = y[i];
    for (int j = a; j <= b; j++)
      if (j != i)
        t *= (xint - x[j]) / (x[i] - x[j]);
    yout += t;
  }
  return 0;
}
} // namespace interp
} // namespace iers2010
#endif
