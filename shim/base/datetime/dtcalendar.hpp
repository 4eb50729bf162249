// Stand-in for the ggdatetime library (not installed here), written from the
// way the repository uses it: integral seconds-type within an integral
// Modified Julian Day.
#ifndef VP_SHIM_DTCALENDAR_HPP
#define VP_SHIM_DTCALENDAR_HPP
#include <cassert>
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <type_traits>
#include <tuple>
#include "datetime/dtfund.hpp"
namespace dso {
struct ydoy_date {
  year __year;
  day_of_year __doy;
};
// days since MJD 0 of a proleptic Gregorian date
inline long vp_ymd2mjd(long y, long m, long d) noexcept {
  y -= m <= 2;
  const long era = (y >= 0 ? y : y - 399) / 400;
  const unsigned long yoe = y - era * 400;
  const unsigned long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const unsigned long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (long)doe - 719468 + 40587;
}
inline void vp_mjd2ymd(long mjd, int &yy, int &mm, int &dd) noexcept {
  const long z = mjd - 40587 + 719468;
  const long era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned long doe = z - era * 146097;
  const unsigned long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const unsigned long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const unsigned long mp = (5 * doy + 2) / 153;
  dd = doy - (153 * mp + 2) / 5 + 1;
  mm = mp < 10 ? mp + 3 : mp - 9;
  yy = yoe + era * 400 + (mm <= 2);
}
inline bool vp_valid_ymd(long y, long m, long d) noexcept {
  static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (m < 1 || m > 12 || d < 1 || y < -9999 || y > 99999)
    return false;
  const bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
  return d <= n[m - 1] + (leap && m == 2);
}
inline modified_julian_day ydoy2mjd(long y, long doy) noexcept {
  return modified_julian_day(vp_ymd2mjd(y, 1, 1) + doy - 1);
}
inline modified_julian_day ydoy2mjd(year y, day_of_year d) noexcept {
  return ydoy2mjd(y.as_underlying_type(), d.as_underlying_type());
}

enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds };

template <class S> class datetime_interval {
  long d_;
  S s_;

public:
  datetime_interval(long d = 0, S s = S(0)) : d_(d), s_(s) {}
  double as_mjd() const noexcept {
    return (double)d_ + (double)s_.as_underlying_type() / ((double)S::max_in_day);
  }
};

template <class S> class datetime {
  modified_julian_day m_mjd{dso::j2000_mjd_day};
  S m_sec{0};
  void normalize() noexcept {
    long s = m_sec.as_underlying_type();
    long d = s / S::max_in_day;
    s %= S::max_in_day;
    if (s < 0) {
      s += S::max_in_day;
      --d;
    }
    m_mjd = modified_julian_day(m_mjd.as_underlying_type() + d);
    m_sec = S(s);
  }

public:
  static datetime min() noexcept { return datetime(modified_julian_day(0), S(0)); }
  static datetime max() noexcept { return datetime(modified_julian_day(106000), S(0)); }
  constexpr datetime() noexcept = default;
  datetime(year y, month m, day_of_month d, S s = S(0)) : m_sec(s) {
    if (!vp_valid_ymd(y.as_underlying_type(), m.as_underlying_type(), d.as_underlying_type()))
      throw std::out_of_range("ERROR invalid date");
    m_mjd = modified_julian_day(vp_ymd2mjd(y.as_underlying_type(), m.as_underlying_type(), d.as_underlying_type()));
    normalize();
  }
  datetime(year y, day_of_year d, S s = S(0)) : m_mjd(ydoy2mjd(y, d)), m_sec(s) { normalize(); }
  datetime(modified_julian_day d, S s = S(0)) noexcept : m_mjd(d), m_sec(s) { normalize(); }
  modified_julian_day mjd() const noexcept { return m_mjd; }
  S sec() const noexcept { return m_sec; }
  double as_mjd() const noexcept {
    return (double)m_mjd.as_underlying_type() + (double)m_sec.as_underlying_type() / (double)S::max_in_day;
  }
  double as_jd() const noexcept { return as_mjd() + mjd0_jd; }
  double jcenturies_sinceJ2000() const noexcept {
    return ((double)m_mjd.as_underlying_type() - (j2000_jd - mjd0_jd)) / 36525e0 +
           (double)m_sec.as_underlying_type() / (double)S::max_in_day / 36525e0;
  }
  template <class T> datetime &add_seconds(T t) noexcept {
    // to this type's resolution
    __int128 v = (__int128)t.as_underlying_type() * S::in_second / T::in_second;
    m_sec = S(m_sec.as_underlying_type() + (long)v);
    normalize();
    return *this;
  }
  S delta_sec(const datetime &d) const noexcept {
    return S((m_mjd.as_underlying_type() - d.m_mjd.as_underlying_type()) * S::max_in_day +
             (m_sec.as_underlying_type() - d.m_sec.as_underlying_type()));
  }
  datetime_interval<S> delta_date(const datetime &d) const noexcept {
    return datetime_interval<S>(m_mjd.as_underlying_type() - d.m_mjd.as_underlying_type(),
                                S(m_sec.as_underlying_type() - d.m_sec.as_underlying_type()));
  }
  ydoy_date as_ydoy() const noexcept {
    int y, m, d;
    vp_mjd2ymd(m_mjd.as_underlying_type(), y, m, d);
    return {year(y), day_of_year((int)(m_mjd.as_underlying_type() - vp_ymd2mjd(y, 1, 1) + 1))};
  }
  template <class T> datetime<T> cast_to() const noexcept {
    const __int128 v = (__int128)m_sec.as_underlying_type() * T::in_second / S::in_second;
    return datetime<T>(m_mjd, T((long)v));
  }
#define VP_CMP(op)                                                             \
  bool operator op(const datetime &b) const noexcept {                         \
    return std::make_tuple(m_mjd.as_underlying_type(), m_sec.as_underlying_type()) op \
        std::make_tuple(b.m_mjd.as_underlying_type(), b.m_sec.as_underlying_type()); \
  }
  VP_CMP(==) VP_CMP(!=) VP_CMP(<) VP_CMP(<=) VP_CMP(>) VP_CMP(>=)
#undef VP_CMP
};
template <DateTimeDifferenceType DT, class S>
double date_diff(const datetime<S> &a, const datetime<S> &b) noexcept {
  const double days = (double)(a.mjd().as_underlying_type() - b.mjd().as_underlying_type());
  const double s = (double)(a.sec().as_underlying_type() - b.sec().as_underlying_type()) / (double)S::in_second;
  return DT == DateTimeDifferenceType::FractionalSeconds ? days * 86400e0 + s : days + s / 86400e0;
}
} // namespace dso
#endif
