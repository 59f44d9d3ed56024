// Stand-in for the 'geodesy' library (absent from the sandbox): coordinate types and the transformations the tide models use.
// Spherical coordinates: distance, geocentric latitude, longitude; verified code sees latitude and longitude as unknown functions.
#ifndef __VERIF_STUB_TRANSF__
#define __VERIF_STUB_TRANSF__
#include "eigen3/Eigen/Eigen"
#include "geodesy/units.hpp"
#include <cmath>
extern "C" double vc_u_sphlat(double, double, double) noexcept;
extern "C" double vc_u_sphlon(double, double, double) noexcept;
namespace dso {
class CartesianCrd {
public:
  Eigen::Matrix<double, 3, 1> mv;
  CartesianCrd() noexcept : mv(Eigen::Matrix<double, 3, 1>::Zero()) {}
  template <typename D> explicit CartesianCrd(const Eigen::MatrixBase<D> &v) noexcept : mv(v) {}
  double x() const noexcept { return mv(0); }
  double y() const noexcept { return mv(1); }
  double z() const noexcept { return mv(2); }
};
class CartesianCrdConstView {
public:
  const Eigen::Matrix<double, 3, 1> &mv;
  explicit CartesianCrdConstView(const Eigen::Matrix<double, 3, 1> &v) noexcept : mv(v) {}
  explicit CartesianCrdConstView(const CartesianCrd &v) noexcept : mv(v.mv) {}
  double x() const noexcept { return mv(0); }
  double y() const noexcept { return mv(1); }
  double z() const noexcept { return mv(2); }
};
class SphericalCrd {
  double mr{0}, mlat{0}, mlon{0};

public:
  SphericalCrd() noexcept {}
  SphericalCrd(double r, double lat, double lon) noexcept : mr(r), mlat(lat), mlon(lon) {}
  double r() const noexcept { return mr; }
  double lat() const noexcept { return mlat; }
  double lon() const noexcept { return mlon; }
};
class SphericalCrdConstView {
  const SphericalCrd &s;

public:
  SphericalCrdConstView(const SphericalCrd &a) noexcept : s(a) {}
  double r() const noexcept { return s.r(); }
  double lat() const noexcept { return s.lat(); }
  double lon() const noexcept { return s.lon(); }
};
template <typename T> struct CoordinateTypeTraits { static constexpr bool isCartesian = false; };
template <> struct CoordinateTypeTraits<CartesianCrd> { static constexpr bool isCartesian = true; };
template <> struct CoordinateTypeTraits<CartesianCrdConstView> { static constexpr bool isCartesian = true; };
template <typename T> inline SphericalCrd cartesian2spherical(const T &v) noexcept {
  const double r = std::sqrt(v.x() * v.x() + v.y() * v.y() + v.z() * v.z());
#ifdef VC_NATIVE
  return SphericalCrd(r, std::atan2(v.z(), std::sqrt(v.x() * v.x() + v.y() * v.y())), std::atan2(v.y(), v.x()));
#else
  return SphericalCrd(r, vc_u_sphlat(v.x(), v.y(), v.z()), vc_u_sphlon(v.x(), v.y(), v.z()));
#endif
}
// columns: east, north, up
inline Eigen::Matrix<double, 3, 3> geodetic2lvlh(double lat, double lon) noexcept {
  const double sf = std::sin(lat), cf = std::cos(lat), sl = std::sin(lon), cl = std::cos(lon);
  Eigen::Matrix<double, 3, 3> R;
  R(0, 0) = -sl;
  R(1, 0) = cl;
  R(2, 0) = 0e0;
  R(0, 1) = -sf * cl;
  R(1, 1) = -sf * sl;
  R(2, 1) = cf;
  R(0, 2) = cf * cl;
  R(1, 2) = cf * sl;
  R(2, 2) = sf;
  return R;
}
} // namespace dso
#endif
