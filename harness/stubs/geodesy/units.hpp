// Stand-in for the 'geodesy' library (absent from the sandbox)
#ifndef __VERIF_STUB_UNITS__
#define __VERIF_STUB_UNITS__
#include <cmath>
extern "C" double vc_u_anp(double) noexcept; /* angle reduced to [0, 2pi): verified code sees an unknown function */
namespace dso {
constexpr const double DPI = 3.141592653589793238462643e0;
constexpr const double D2PI = 6.283185307179586476925287e0;
constexpr const double TURNAS = 1296000e0;
constexpr double sec2rad(double s) noexcept { return s * (DPI / 648000e0); }
constexpr double rad2sec(double r) noexcept { return r * (648000e0 / DPI); }
constexpr double deg2rad(double d) noexcept { return d * (DPI / 180e0); }
constexpr double rad2deg(double r) noexcept { return r * (180e0 / DPI); }
constexpr double hsec2rad(double s) noexcept { return s * (DPI / 43200e0); }
#ifdef VC_NATIVE
inline double anp(double a) noexcept {
  double w = std::fmod(a, D2PI);
  if (w < 0) w += D2PI;
  return w;
}
#else
inline double anp(double a) noexcept { return vc_u_anp(a); }
#endif
namespace detail {
enum class AngleUnit { Radians, Degrees, Seconds };
template <AngleUnit U> struct AngleUnitTraits;
template <> struct AngleUnitTraits<AngleUnit::Radians> {
  static constexpr double full_circle() noexcept { return D2PI; }
};
} // namespace detail
template <detail::AngleUnit U> inline double anp(double a) noexcept {
  static_assert(U == detail::AngleUnit::Radians, "not needed");
  return anp(a);
}
} // namespace dso
#endif
