// Stand-in for the 'datetime' library (absent from the sandbox): an epoch is an integer MJD and a fraction of day
#ifndef __VERIF_STUB_CALENDAR__
#define __VERIF_STUB_CALENDAR__
#include <cmath>
#include <cstddef>
#include <cstdint>
extern "C" double vc_u_dat(int) noexcept; /* leap seconds: a function of the day */
namespace dso {
enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds, FractionalYears };
struct FractionalDays {
  double v;
  constexpr double days() const noexcept { return v; }
};
struct FractionalSeconds {
  double v;
  constexpr double seconds() const noexcept { return v; }
};
struct FractionalYears {
  double v;
  constexpr double years() const noexcept { return v; }
};
struct seconds {};
struct modified_julian_day {
  int d;
  explicit constexpr modified_julian_day(int mjd = 0) noexcept : d(mjd) {}
};
#ifdef VC_MJD_REAL /* arrays of epochs: the day as a number of the same kind as the rest of the record */
typedef double mjd_t;
#else
typedef int mjd_t;
#endif
class MjdEpoch {
public:
  mjd_t m;
  double f; /* fraction of day */
  constexpr MjdEpoch(mjd_t mjd = 0, double fraction = 0e0) noexcept : m(mjd), f(fraction) {}
  constexpr int imjd() const noexcept { return int(m); }
  static constexpr MjdEpoch j2000_mjd() noexcept { return MjdEpoch(51544, 0.5); }
  template <DateTimeDifferenceType T> constexpr auto diff(const MjdEpoch &o) const noexcept {
    if constexpr (T == DateTimeDifferenceType::FractionalDays)
      return FractionalDays{double(m - o.m) + (f - o.f)};
    else if constexpr (T == DateTimeDifferenceType::FractionalYears)
      return FractionalYears{(double(m - o.m) + (f - o.f)) / 365.25e0};
    else
      return FractionalSeconds{(double(m - o.m) + (f - o.f)) * 86400e0};
  }
  constexpr bool operator<(const MjdEpoch &o) const noexcept { return double(m - o.m) + (f - o.f) < 0e0; }
  constexpr bool operator>(const MjdEpoch &o) const noexcept { return o < *this; }
  constexpr bool operator<=(const MjdEpoch &o) const noexcept { return !(o < *this); }
  constexpr bool operator>=(const MjdEpoch &o) const noexcept { return !(*this < o); }
  constexpr bool operator==(const MjdEpoch &o) const noexcept { return double(m - o.m) + (f - o.f) == 0e0; }
  constexpr bool operator!=(const MjdEpoch &o) const noexcept { return !(*this == o); }
  constexpr MjdEpoch tt2utc() const noexcept { return MjdEpoch(m, f - 69.184e0 / 86400e0); }
  constexpr MjdEpoch tt2ut1(double dut1) const noexcept { return MjdEpoch(m, f + (dut1 - 69.184e0) / 86400e0); }
  constexpr FractionalDays fractional_days() const noexcept { return FractionalDays{f}; }
  template <typename S> constexpr double sec_of_day() const noexcept { return f * 86400e0; }
  constexpr double jcenturies_sinceJ2000() const noexcept { return (double(m - 51544) + (f - 0.5)) / 36525e0; }
};
#ifdef VC_NATIVE
inline double dat(modified_julian_day d) noexcept { return d.d < 57754 ? 36e0 : 37e0; }
#else
inline double dat(modified_julian_day d) noexcept { return vc_u_dat(d.d); }
#endif
} // namespace dso
#endif
