// Entry points: solid Earth tide (step 1) and pole tide corrections.  The frequency dependent corrections (step 2) are unknown
// functions here.
#include "eigen3/Eigen/Eigen"
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdio>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "solid_earth_tide.hpp"
#include "pole_tide.hpp"

#include "stokes_coefficients.cpp"
#include "solid_earth_tides/iers2010_geopotential_step1.cpp"
#include "solid_earth_tides/iers2010_stokes_coeffs.cpp"
#include "solid_earth_tides/iers2010_displacement_step1.cpp"
#include "pole_tide/pole_tide_deformation.cpp"
#include "pole_tide/ocean_pole_tide_deformation.cpp"
#include "pole_tide/ocean_pole_tide_geopotential.cpp"
extern "C" double vc_u_step2(int, double, double, double, double, double, double, double, double, double) noexcept;
int dso::SolidEarthTide::potential_step2(const dso::MjdEpoch &t, const dso::MjdEpoch &u, const double *const a, double &dC20, double &dC21, double &dS21,
                                         double &dC22, double &dS22) const noexcept {
  double *o[5] = {&dC20, &dC21, &dS21, &dC22, &dS22};
  for (int i = 0; i < 5; i++) *o[i] = vc_u_step2(i, t.m, t.f, u.m, u.f, a[0], a[1], a[2], a[3], a[4]);
  return 0;
}
typedef Eigen::Matrix<double, 3, 1> V;
static V vec(const double *p) {
  V v;
  for (int i = 0; i < 3; i++) v(i) = p[i];
  return v;
}
static void put(const V &v, double *o) {
  for (int i = 0; i < 3; i++) o[i] = v(i);
}
static dso::MjdEpoch epoch(const double *t) {
  dso::MjdEpoch e;
  e.m = t[0];
  e.f = t[1];
  return e;
}
extern "C" {
unsigned long vc_setsz() { return sizeof(dso::SolidEarthTide); }
void vc_setctor(dso::SolidEarthTide *s, double gm, double re, double sun, double moon) { new (s) dso::SolidEarthTide(gm, re, sun, moon); }
void vc_setctor0(dso::SolidEarthTide *s) { new (s) dso::SolidEarthTide(); }
// ratios Sun, Moon; GM, Re of the coefficients
void vc_setpar(const dso::SolidEarthTide *s, double *o) {
  o[0] = s->mSEratio;
  o[1] = s->mMEratio;
  o[2] = s->mcs.GM();
  o[3] = s->mcs.Re();
}
// constructor followed by step 1 on arrays with arbitrary contents
int vc_step1(const double *par, const double *moon, const double *sun, double *c, double *s) {
  dso::SolidEarthTide t(par[0], par[1], par[2], par[3]);
  std::array<double, 12> dc, ds;
  for (int i = 0; i < 12; i++) dc[i] = c[i], ds[i] = s[i];
  const int r = t.potential_step1(vec(moon), vec(sun), dc, ds);
  for (int i = 0; i < 12; i++) c[i] = dc[i], s[i] = ds[i];
  return r;
}
// two requests one after the other: the second one's coefficients n = 0..4, m = 0..n
int vc_set(const double *par, const double *moon0, const double *sun0, const double *moon, const double *sun, const double *tt, const double *ut,
           const double *fa, double *c, double *s) {
  dso::SolidEarthTide t(par[0], par[1], par[2], par[3]);
  t.stokes_coeffs(epoch(ut), epoch(tt), vec(moon0), vec(sun0), fa);
  const int r = t.stokes_coeffs(epoch(tt), epoch(ut), vec(moon), vec(sun), fa);
  for (int n = 0, k = 0; n < 5; n++)
    for (int m = 0; m <= n; m++, k++) {
      c[k] = t.stokes_coeffs().C(n, m);
      s[k] = t.stokes_coeffs().S(n, m);
    }
  return r;
}
void vc_disp1(const double *par, const double *sta, const double *moon, const double *sun, double *o) {
  dso::SolidEarthTide t(par[0], par[1], par[2], par[3]);
  typedef dso::SolidEarthTide::PointSphericalTrigs P;
  const V x = vec(sta), m = vec(moon), s = vec(sun);
  const P px{dso::CartesianCrdConstView(x)}, pm{dso::CartesianCrdConstView(m)}, ps{dso::CartesianCrdConstView(s)};
  put(t.step1_displacement(x, m, s, px, pm, ps), o);
}
void vc_pole(const double *t, double xp, double yp, double *o) { dso::PoleTide::stokes_coeffs(epoch(t), xp, yp, o[0], o[1]); }
void vc_opole(const double *t, double xp, double yp, double *o) { dso::OceanPoleTide::stokes_coeffs(epoch(t), xp, yp, o[0], o[1]); }
void vc_m12(const double *t, double xp, double yp, double *o) {
  const auto m = dso::pole_tide_details::mcoeffs(epoch(t), xp, yp);
  o[0] = m.m1;
  o[1] = m.m2;
}
void vc_poledef(const double *t, double xp, double yp, double lat, double lon, double *o) {
  const dso::SphericalCrd s(6378e3, lat, lon);
  put(dso::PoleTide::deformation(epoch(t), xp, yp, dso::SphericalCrdConstView(s)).mv, o);
}
// coef: rR rI nR nI eR eI; par: Re GM omega G ge
void vc_opoledef(const double *t, double xp, double yp, double lat, double lon, const double *q, const double *par, double *o) {
  const dso::SphericalCrd s(6378e3, lat, lon);
  dso::OceanPoleTideDesaiCoeffs c;
  c.rR = q[0], c.rI = q[1], c.nR = q[2], c.nI = q[3], c.eR = q[4], c.eI = q[5];
  put(dso::OceanPoleTide::deformation(epoch(t), xp, yp, dso::SphericalCrdConstView(s), c, par[0], par[1], par[2], par[3], par[4]).mv, o);
}
// OceanPoleTide object: parts
unsigned long vc_optsz() { return sizeof(dso::OceanPoleTide); }
void vc_optparts(dso::OceanPoleTide *t, void **o) {
  o[0] = &t->mmaxdegree;
  o[1] = &t->mmaxorder;
  o[2] = &t->mcs;
  o[3] = &t->A_real;
  o[4] = &t->A_imag;
  o[5] = &t->B_real;
  o[6] = &t->B_imag;
}
int vc_opt(dso::OceanPoleTide *o, const double *t, double xp, double yp, int n, int m, const double *par) {
  return o->stokes_coeffs(epoch(t), xp, yp, n, m, par[0], par[1], par[2]);
}
}
// parts used to find the layouts of Stokes sets and matrices
typedef dso::StokesCoeffs VcSet;
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> VcMat;
extern "C" {
unsigned long vc_sz() { return sizeof(VcSet); }
void vc_parts(VcSet *s, void **o) {
  o[0] = &s->Cnm();
  o[1] = &s->Snm();
  o[2] = &s->GM();
  o[3] = &s->Re();
  o[4] = &s->normalized();
}
void vc_ctor4(VcSet *o, int n, int m, double gm, double re) { new (o) VcSet(n, m, gm, re); }
unsigned long vc_sizeof_LwTriangularColWise() { return sizeof(VcMat); }
void vc_ctor_LwTriangularColWise(VcMat *o, int r, int c) { new (o) VcMat(r, c); }
}
