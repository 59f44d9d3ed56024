// Entry points: spherical harmonics acceleration and gradient
#include <new>
#include <utility>
#include "gravity.hpp"
#include "stokes_coefficients.cpp"
#include "gravity/sh_cunningham_normalized_gradient.cpp"
#include "n_lc.hpp"
typedef dso::StokesCoeffs T;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
extern "C" {
unsigned long vc_sz() { return sizeof(T); }
void vc_parts(T *s, void **o) {
  o[0] = &s->Cnm();
  o[1] = &s->Snm();
  o[2] = &s->GM();
  o[3] = &s->Re();
  o[4] = &s->normalized();
}
void vc_ctor4(T *o, int n, int m, double gm, double re) { new (o) T(n, m, gm, re); }
int vc_sh(const T *cs, const V3 *r, V3 *a, M3 *g, int n, int m, double Re, double GM, LCM *W, LCM *M) {
  return dso::sh2gradient_cunningham(*cs, *r, *a, *g, n, m, Re, GM, W, M);
}
void vc_nop(void *) {}
int vc_sh_default(const T *cs, const V3 *r, V3 *a, M3 *g) { return dso::sh2gradient_cunningham(*cs, *r, *a, *g); }
}
