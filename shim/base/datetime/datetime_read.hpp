// Stand-in for the ggdatetime library; see dtcalendar.hpp.
#ifndef VP_SHIM_DATETIME_READ_HPP
#define VP_SHIM_DATETIME_READ_HPP
#include "datetime/dtcalendar.hpp"
#include "datetime/utcdates.hpp"
#include <cstdlib>
#include <cstring>
#include <stdexcept>
namespace dso {
// YYYY?MM?DD?hh?mm?ss.sss, the separators any one character
inline void vp_read_ymdhms(const char *s, long f[5], long &sec, long &nano, char **end) {
  const char *p = s;
  for (int i = 0; i < 5; i++) {
    char *q;
    while (*p == ' ')
      ++p;
    f[i] = std::strtol(p, &q, 10);
    if (q == p || (i < 4 && !*q))
      throw std::invalid_argument("ERROR invalid date/time string");
    if (f[i] < -1000000 || f[i] > 1000000)
      throw std::invalid_argument("ERROR invalid date/time string");
    if (f[i] < 0)
      f[i] = -f[i]; // a '-' separator read as a sign
    p = q;
    if (*p && !(*p >= '0' && *p <= '9'))
      ++p;
  }
  while (*p == ' ')
    ++p;
  if (!(*p >= '0' && *p <= '9'))
    throw std::invalid_argument("ERROR invalid date/time string");
  sec = 0;
  while (*p >= '0' && *p <= '9') {
    sec = sec > 100000 ? sec : sec * 10 + (*p - '0');
    ++p;
  }
  nano = 0;
  if (*p == '.') {
    ++p;
    long w = 100000000L;
    while (*p >= '0' && *p <= '9') {
      nano += (*p++ - '0') * w;
      w /= 10;
    }
  }
  if (f[3] < 0 || f[4] < 0 || f[3] > 24 || f[4] > 59 || sec > 60 || !vp_valid_ymd(f[0], f[1], f[2]))
    throw std::invalid_argument("ERROR invalid date/time string");
  if (end)
    *end = const_cast<char *>(p);
}
template <class T> datetime<T> strptime_ymd_hms(const char *s, char **end = nullptr) {
  long f[5], sec, nano;
  vp_read_ymdhms(s, f, sec, nano, end);
  const long t = (f[3] * 3600 + f[4] * 60 + sec) * T::in_second + nano / (1000000000L / T::in_second);
  return datetime<T>(modified_julian_day(vp_ymd2mjd(f[0], f[1], f[2])), T(t));
}
// UTC date/time to MJD and fraction of that UTC day
inline double utc_strptime_ymd_hms(const char *s, modified_julian_day &mjd, char **end = nullptr) {
  long f[5], sec, nano;
  vp_read_ymdhms(s, f, sec, nano, end);
  mjd = modified_julian_day(vp_ymd2mjd(f[0], f[1], f[2]));
  int ex;
  dat(mjd, ex);
  return ((double)(f[3] * 3600 + f[4] * 60 + sec) + (double)nano * 1e-9) / (86400e0 + ex);
}
} // namespace dso
#endif
