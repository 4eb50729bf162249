// Stand-in for the ggdatetime library; see dtcalendar.hpp.
#ifndef VP_SHIM_DTFUND_HPP
#define VP_SHIM_DTFUND_HPP
#include <cmath>
#include <cstdint>
#include <type_traits>
namespace dso {
constexpr double mjd0_jd = 2400000.5e0;
constexpr double j2000_jd = 2451545e0;
constexpr long j2000_mjd_day = 51544;
constexpr double sec_per_day = 86400e0;
constexpr double days_in_julian_cent = 36525e0;

#define VP_INT_TYPE(NAME, UT, EXPLICIT)                                                  \
  class NAME {                                                                 \
    UT v_;                                                                     \
                                                                               \
  public:                                                                      \
    typedef UT underlying_type;                                                \
    EXPLICIT constexpr NAME(UT v = 0) noexcept : v_(v) {}                      \
    constexpr UT as_underlying_type() const noexcept { return v_; }            \
    constexpr UT &__member_ref__() noexcept { return v_; }                     \
    constexpr bool operator==(NAME b) const noexcept { return v_ == b.v_; }    \
    constexpr bool operator!=(NAME b) const noexcept { return v_ != b.v_; }    \
    constexpr bool operator<(NAME b) const noexcept { return v_ < b.v_; }      \
    constexpr bool operator<=(NAME b) const noexcept { return v_ <= b.v_; }    \
    constexpr bool operator>(NAME b) const noexcept { return v_ > b.v_; }      \
    constexpr bool operator>=(NAME b) const noexcept { return v_ >= b.v_; }
VP_INT_TYPE(year, int, explicit) };
VP_INT_TYPE(month, int, explicit) };
VP_INT_TYPE(day_of_month, int, explicit) };
VP_INT_TYPE(day_of_year, int, explicit) };
VP_INT_TYPE(hours, int, explicit) };
VP_INT_TYPE(minutes, int, explicit) };
VP_INT_TYPE(modified_julian_day, long, )
  constexpr modified_julian_day operator+(modified_julian_day b) const noexcept { return modified_julian_day(v_ + b.v_); }
  constexpr modified_julian_day operator-(modified_julian_day b) const noexcept { return modified_julian_day(v_ - b.v_); }
  constexpr modified_julian_day &operator+=(modified_julian_day b) noexcept { v_ += b.v_; return *this; }
  constexpr modified_julian_day &operator-=(modified_julian_day b) noexcept { v_ -= b.v_; return *this; }
  constexpr modified_julian_day &operator++() noexcept { ++v_; return *this; }
  constexpr modified_julian_day &operator--() noexcept { --v_; return *this; }
  constexpr double to_julian_day() const noexcept { return (double)v_ + mjd0_jd; }
};
#define VP_SEC_TYPE(NAME, FACTOR)                                              \
  VP_INT_TYPE(NAME, long, explicit)                                                      \
    static constexpr bool is_of_sec_type = true;                               \
    static constexpr long in_second = FACTOR;                                  \
    static constexpr long max_in_day = 86400L * FACTOR;                        \
    template <class T> static constexpr T sec_factor() noexcept { return (T)FACTOR; } \
    constexpr double to_fractional_seconds() const noexcept { return (double)v_ / (double)FACTOR; } \
    constexpr double fractional_days() const noexcept { return (double)v_ / (double)max_in_day; } \
    constexpr NAME operator+(NAME b) const noexcept { return NAME(v_ + b.v_); } \
    constexpr NAME operator-(NAME b) const noexcept { return NAME(v_ - b.v_); } \
    constexpr NAME operator-() const noexcept { return NAME(-v_); }            \
    constexpr NAME &operator+=(NAME b) noexcept { v_ += b.v_; return *this; }  \
    constexpr NAME &operator-=(NAME b) noexcept { v_ -= b.v_; return *this; }  \
  };
VP_SEC_TYPE(seconds, 1L)
VP_SEC_TYPE(milliseconds, 1000L)
VP_SEC_TYPE(microseconds, 1000000L)
VP_SEC_TYPE(nanoseconds, 1000000000L)
// leap seconds from 1972 on
struct vp_leap {
  long mjd;
  int dat;
};
// first UTC day on which TAI-UTC has the value
constexpr vp_leap vp_leaps[] = {
    {41317, 10}, {41499, 11}, {41683, 12}, {42048, 13}, {42413, 14}, {42778, 15}, {43144, 16},
    {43509, 17}, {43874, 18}, {44239, 19}, {44786, 20}, {45151, 21}, {45516, 22}, {46247, 23},
    {47161, 24}, {47892, 25}, {48257, 26}, {48804, 27}, {49169, 28}, {49534, 29}, {50083, 30},
    {50630, 31}, {51179, 32}, {53736, 33}, {54832, 34}, {56109, 35}, {57204, 36}, {57754, 37}};
inline int dat(modified_julian_day mjd) noexcept {
  int v = 0;
  for (const auto &l : vp_leaps)
    if (mjd.as_underlying_type() >= l.mjd)
      v = l.dat;
  return v;
}
inline int dat(modified_julian_day mjd, int &extra_sec_in_day) noexcept {
  const int a = dat(mjd), b = dat(modified_julian_day(mjd.as_underlying_type() + 1));
  extra_sec_in_day = (a && b > a) ? b - a : 0;
  return a;
}
inline int dat(double mjd, int &extra_sec_in_day) noexcept {
  return dat(modified_julian_day((long)std::floor(mjd)), extra_sec_in_day);
}
} // namespace dso
#endif
