// Stand-in for the ggdatetime library; see dtcalendar.hpp.  Leap seconds from
// 1972 on.
#ifndef VP_SHIM_UTCDATES_HPP
#define VP_SHIM_UTCDATES_HPP
#include "datetime/dtcalendar.hpp"
namespace dso {
// UTC (day and fraction of that day, which may be 86401 s long) to TAI
inline double utc2tai(modified_julian_day utc_mjd, double utc_fday, modified_julian_day &tai_mjd) noexcept {
  int ex;
  const int d = dat(utc_mjd, ex);
  double f = (utc_fday * (86400e0 + ex) + d) / 86400e0;
  tai_mjd = utc_mjd;
  while (f >= 1e0) {
    f -= 1e0;
    ++tai_mjd;
  }
  return f;
}
template <class S> double tai2utc(const datetime<S> &tai, modified_julian_day &utc_mjd) noexcept {
  const double s = (double)tai.sec().as_underlying_type() / (double)S::in_second;
  for (long k = tai.mjd().as_underlying_type(); k >= tai.mjd().as_underlying_type() - 1; --k) {
    int ex;
    const int d = dat(modified_julian_day(k), ex);
    const double u = (double)(tai.mjd().as_underlying_type() - k) * 86400e0 + s - d;
    if (u >= 0e0 && u < 86400e0 + ex) {
      utc_mjd = modified_julian_day(k);
      return u / (86400e0 + ex);
    }
  }
  utc_mjd = tai.mjd();
  return s / 86400e0;
}
} // namespace dso
#include "datetime/datetime_read.hpp"
#endif
