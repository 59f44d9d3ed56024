// Entry points: celestial-to-terrestrial rotations.  The precession-nutation series, the CIO locator and the Earth rotation
// angle are unknown functions of their arguments here (their own contracts are C17's and C20's).
#include <algorithm>
#include <array>
#include <vector>
#define private public
#include "eop.hpp"
#undef private
#include "earth_rotation.hpp"
#include "iau.hpp"
#include "earth_rotation/c2i06a.cpp"
#include "earth_rotation/c2i06abz.cpp"
#include "earth_rotation/c2i06apq.cpp"
extern "C" double vc_u_xcip(double, double) noexcept;
extern "C" double vc_u_ycip(double, double) noexcept;
extern "C" double vc_u_farg(int, double, double) noexcept;
extern "C" double vc_u_s06(double, double, double, double, double, double, double, double, double, double, double, double, double, double, double, double, double,
                            double) noexcept;
extern "C" double vc_u_era(double, double) noexcept;
static double gX, gY, gm, gf, gu, gE; // what the model gives at the epoch of the request
int dso::xycip06a(const dso::MjdEpoch &t, double &x, double &y, double *const fa) noexcept {
  x = gX + (vc_u_xcip(t.m, t.f) - vc_u_xcip(gm, gf));
  y = gY + (vc_u_ycip(t.m, t.f) - vc_u_ycip(gm, gf));
  if (fa)
    for (int i = 0; i < 14; i++) fa[i] = vc_u_farg(i, t.m, t.f);
  return 0;
}
static double locator(double m, double f, double x, double y, const double *a) {
  return vc_u_s06(m, f, x, y, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]);
}
double dso::s06(const dso::MjdEpoch &t, double x, double y) noexcept {
  double a[14];
  for (int i = 0; i < 14; i++) a[i] = vc_u_farg(i, t.m, t.f);
  return locator(t.m, t.f, x, y, a);
}
double dso::s06(const dso::MjdEpoch &t, double x, double y, const double *const fa) noexcept { return locator(t.m, t.f, x, y, fa); }
double dso::era00(const dso::MjdEpoch &u) noexcept { return gE + (vc_u_era(u.m, u.f) - vc_u_era(gm, gu)); }
static void put(const Eigen::Matrix3d &m, double *o) {
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) o[3 * i + j] = m(i, j);
}
static void put(const Eigen::Quaterniond &q, double *o) {
  put(Eigen::Matrix3d(q.toRotationMatrix()), o);
  o[9] = q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z();
}
static dso::EopRecord record(const double *p) {
  dso::EopRecord r;
  r.xp() = p[0];
  r.yp() = p[1];
  r.dut() = p[2];
  r.lod() = p[3];
  r.dX() = p[4];
  r.dY() = p[5];
  return r;
}
// request: tt day, tt fraction, model X, model Y, fraction of the UT1 day, Earth rotation angle
static dso::MjdEpoch request(const double *p) {
  gm = p[0];
  gf = p[1];
  gX = p[2];
  gY = p[3];
  gu = p[4];
  gE = p[5];
  dso::MjdEpoch t;
  t.m = p[0];
  t.f = p[1];
  return t;
}
extern "C" {
void vc_spherical(double x, double y, double *o) {
  double d, e;
  dso::detail::xycip2spherical(x, y, d, e);
  o[0] = std::sin(d) * std::cos(e);
  o[1] = std::sin(d) * std::sin(e);
  o[2] = std::cos(d);
}
void vc_C(double x, double y, double s, double *o) { put(Eigen::Quaterniond(dso::detail::C(x, y, s)), o); }
void vc_Cq(double x, double y, double s, double *o) { put(Eigen::Quaterniond(dso::detail::C_qimpl(x, y, s)), o); }
void vc_dRdt(double era, double om, double *o) { put(Eigen::Matrix3d(dso::detail::dRdt(era, om)), o); }
void vc_c2i(double era, double s, double sp, double d, double e, double xp, double yp, double *o) { put(dso::detail::c2i(era, s, sp, d, e, xp, yp), o); }
void vc_c2tirs(double era, double s, double d, double e, double *o) { put(dso::detail::c2tirs(era, s, d, e), o); }
void vc_tirs2i(double xp, double yp, double sp, double *o) { put(dso::detail::tirs2i(xp, yp, sp), o); }
void vc_bz(double era, double s, double sp, double x, double y, double xp, double yp, double *o) {
  put(dso::detail::gcrs2itrs_quaternion(era, s, sp, x, y, xp, yp), o);
}
double vc_rate(double lod, double *o) {
  const Eigen::Vector3d a = dso::earth_rotation_axis(lod);
  for (int i = 0; i < 3; i++) o[i] = a(i);
  return dso::earth_rotation_rate(lod);
}
void vc_c2i06a(const double *t, const double *eop, double *o) {
  const auto tt = request(t);
  put(dso::c2i06a(tt, record(eop)), o);
}
void vc_c2i06a_bz(const double *t, const double *eop, double *o) {
  const auto tt = request(t);
  put(dso::c2i06a_bz(tt, record(eop)), o);
}
void vc_c2i06a_d(const double *t, const double *eop, double *o, double *d) {
  const auto tt = request(t);
  Eigen::Matrix3d m;
  put(dso::c2i06a(tt, record(eop), m), o);
  put(m, d);
}
void vc_c2i06a_pq(const double *t, const double *eop, double *o, double *q, double *w) {
  const auto tt = request(t);
  Eigen::Quaterniond a, b;
  const Eigen::Vector3d v = dso::c2i06a(tt, record(eop), a, b);
  put(a, o);
  put(b, q);
  for (int i = 0; i < 3; i++) w[i] = v(i);
}
}
