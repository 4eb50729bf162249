// Stand-in for the ggdatetime library; see dtcalendar.hpp.
#ifndef VP_SHIM_DATETIME_WRITE_HPP
#define VP_SHIM_DATETIME_WRITE_HPP
#include "datetime/dtcalendar.hpp"
#include <cstdio>
#include <string>
namespace dso {
template <class S> std::string strftime_ymd_hms(const datetime<S> &d) {
  int y, m, dd;
  vp_mjd2ymd(d.mjd().as_underlying_type(), y, m, dd);
  const long s = d.sec().as_underlying_type();
  char buf[80];
  std::snprintf(buf, sizeof buf, "%04d-%02d-%02d %02ld:%02ld:%012.9f", y, m, dd, s / S::in_second / 3600,
                s / S::in_second % 3600 / 60, (double)(s % (60 * S::in_second)) / S::in_second);
  return buf;
}
} // namespace dso
#endif
