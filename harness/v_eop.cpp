// Entry points: EOP interpolation and regularisation.  std::upper_bound is replaced by its contract (on a range sorted by the
// comparator it returns the only position with no greater element before it and a greater one at it); ghost: vc_ub, any position.
#define VC_MJD_REAL
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdio>
#include <iterator>
#include <utility>
#include <vector>
extern "C" long vc_pick(long n) noexcept;    /* some position 0..n */
extern "C" long vc_choose(long n) noexcept;  /* any position 0..n */
extern "C" void vc_assume(bool) noexcept;
namespace std {
template <class It, class T, class C> static inline It vc_upper_bound(It a, It b, const T &v, C c) {
  const long n = b - a;
  const long p = vc_pick(n);
  if ((p == 0 || !c(v, *(a + (p - 1)))) && (p == n || c(v, *(a + p)))) return a + p;
  const long k = vc_choose(n);
  if (k > 0) vc_assume(!c(v, *(a + (k - 1))));
  if (k < n) vc_assume(c(v, *(a + k)));
  return a + k;
}
template <class It, class T, class C> static inline It vc_lower_bound(It a, It b, const T &v, C c) {
  const long n = b - a;
  const long k = vc_choose(n);
  if (k > 0) vc_assume(c(*(a + (k - 1)), v));
  if (k < n) vc_assume(!c(*(a + k), v));
  return a + k;
}
} // namespace std
#define upper_bound vc_upper_bound
#define lower_bound vc_lower_bound
#define private public
#include "eop.hpp"
#undef private
#include "fundarg.hpp"
#include "eop/approx_dut1.cpp"
#include "eop/lagrange_interpolation.cpp"
#include "eop/regularize.cpp"
// the fundamental arguments (C17): here unknown functions of the time
extern "C" double vc_u_fa_l(double) noexcept;
extern "C" double vc_u_fa_lp(double) noexcept;
extern "C" double vc_u_fa_f(double) noexcept;
extern "C" double vc_u_fa_d(double) noexcept;
extern "C" double vc_u_fa_om(double) noexcept;
#ifndef VC_NATIVE
double *dso::iers2010::fundarg(double t, double *a) noexcept {
  a[0] = vc_u_fa_l(t);
  a[1] = vc_u_fa_lp(t);
  a[2] = vc_u_fa_f(t);
  a[3] = vc_u_fa_d(t);
  a[4] = vc_u_fa_om(t);
  return a;
}
#endif
// the zonal tide model itself is C26's: here an unknown function of the five arguments
extern "C" double vc_u_zt_dut(double, double, double, double, double) noexcept;
extern "C" double vc_u_zt_lod(double, double, double, double, double) noexcept;
extern "C" double vc_u_zt_om(double, double, double, double, double) noexcept;
#ifndef VC_NATIVE
int dso::deop_zonal_tide(const double *const a, double &dut1, double &dlod, double &domega) noexcept {
  dut1 = vc_u_zt_dut(a[0], a[1], a[2], a[3], a[4]);
  dlod = vc_u_zt_lod(a[0], a[1], a[2], a[3], a[4]);
  domega = vc_u_zt_om(a[0], a[1], a[2], a[3], a[4]);
  return 0;
}
#endif
typedef dso::EopSeries S;
typedef dso::EopRecord R;
#ifndef VC_NATIVE
extern "C" {
int vc_eop_interp(const S *s, const dso::MjdEpoch *t, R *out, int degree) { return (int)s->interpolate(*t, *out, degree); }
int vc_eop_interp_default(const S *s, const dso::MjdEpoch *t, R *out) { return (int)s->interpolate(*t, *out); }
int vc_eop_approx(const S *s, const dso::MjdEpoch *t, double *out) { return (int)s->approx_dut1(*t, *out); }
void vc_eop_regularize(S *s) { s->regularize(); }
void vc_eop_deregularize(S *s) { s->deregularize(); }
void vc_eop_there_and_back(S *s) {
  s->regularize();
  s->deregularize();
}
void vc_eop_back_and_there(S *s) {
  s->deregularize();
  s->regularize();
}
}
#endif
