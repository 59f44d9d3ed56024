// Entry points: StokesCoeffs
#include <new>
#include <utility>
#include "stokes_coefficients.hpp"
#include "stokes_coefficients.cpp"
#include "n_lc.hpp"
typedef dso::StokesCoeffs T;
extern "C" {
unsigned long vc_sz() { return sizeof(T); }
// addresses of the parts (with the public accessors)
void vc_parts(T *s, void **o) {
  o[0] = &s->Cnm();
  o[1] = &s->Snm();
  o[2] = &s->GM();
  o[3] = &s->Re();
  o[4] = &s->normalized();
}
void vc_get(const T *s, int *d, double *x, bool *n, const void **p) {
  d[0] = s->max_degree();
  d[1] = s->max_order();
  x[0] = s->GM();
  x[1] = s->Re();
  n[0] = s->normalized();
  p[0] = &s->Cnm();
  p[1] = &s->Snm();
}
double vc_j2(const T *s) { return s->J2(); }
void vc_dflt(T *o) { new (o) T(); }
void vc_ctor4(T *o, int n, int m, double gm, double re) { new (o) T(n, m, gm, re); }
void vc_ctor1(T *o, int n) { new (o) T(n); }
void vc_cctor(T *o, const T *a) { new (o) T(*a); }
void vc_mctor(T *o, T *a) { new (o) T(std::move(*a)); }
void vc_dtor(T *o) { o->~T(); }
T *vc_cassign(T *a, const T *b) { return &(*a = *b); }
T *vc_massign(T *a, T *b) { return &(*a = std::move(*b)); }
void vc_swap(T *a, T *b) { a->swap(*b); }
void vc_fswap(T *a, T *b) { dso::swap(*a, *b); }
void vc_resize(T *a, int n, int m) { a->resize(n, m); }
void vc_cresize(T *a, int n, int m) { a->cresize(n, m); }
int vc_shrink(T *a, int n, int m) { return a->shrink_dimensions(n, m); }
double *vc_C(T *a, int n, int m) { return &a->C(n, m); }
double *vc_S(T *a, int n, int m) { return &a->S(n, m); }
double vc_cC(const T *a, int n, int m) { return a->C(n, m); }
double vc_cS(const T *a, int n, int m) { return a->S(n, m); }
// C06
T *vc_add(T *a, const T *b) { return &(*a += *b); }
void vc_scale(T *a, double f) { a->scale(f); }
void vc_clear(T *a) { a->clear(); }
// C07
unsigned long vc_msz() { return sizeof(Eigen::MatrixXd); }
void vc_mmk(Eigen::MatrixXd *o, int r, int c) { new (o) Eigen::MatrixXd(r, c); }
void vc_pack(const T *a, Eigen::MatrixXd *o) { new (o) Eigen::MatrixXd(a->to_anm()); }
void vc_unpack(T *o, const Eigen::MatrixXd *m) { new (o) T(T::from_anm(*m)); }
void vc_unpack2(T *o, const Eigen::MatrixXd *m, int order) { new (o) T(T::from_anm(*m, order)); }
}
