// Entry points: CoeffMatrix2D operations, every storage layout.
#include <new>
#include <utility>
#include "coeff_matrix_2d.hpp"
using dso::MatrixStorageType;
template <MatrixStorageType S> using CM = dso::CoeffMatrix2D<S>;
template <MatrixStorageType S> static void rc(CM<S> &a, const CM<S> &ca, int i, const double **o) {
  if constexpr (dso::StorageImplementation<S>::isRowMajor) {
    o[2] = a.row(i);
    o[3] = ca.row(i);
  } else {
    o[2] = a.column(i);
    o[3] = ca.column(i);
  }
}

#define DEF(L)                                                                                     \
  namespace n_##L {                                                                                \
  typedef CM<MatrixStorageType::L> T;                                                              \
  extern "C" unsigned long vc_sizeof_##L() { return sizeof(T); }                                   \
  extern "C" void vc_ctor_##L(T *o, int r, int c) { new (o) T(r, c); }                             \
  extern "C" void vc_dtor_##L(T *o) { o->~T(); }                                                   \
  extern "C" void vc_cctor_##L(T *o, const T *a) { new (o) T(*a); }                                \
  extern "C" void vc_mctor_##L(T *o, T *a) { new (o) T(std::move(*a)); }                           \
  extern "C" T *vc_cassign_##L(T *a, const T *b) { return &(*a = *b); }                            \
  extern "C" T *vc_massign_##L(T *a, T *b) { return &(*a = std::move(*b)); }                       \
  extern "C" void vc_swap_##L(T *a, T *b) { a->swap(*b); }                                         \
  extern "C" void vc_fswap_##L(T *a, T *b) { swap(*a, *b); }                                       \
  extern "C" void vc_resize_##L(T *a, int r, int c) { a->resize(r, c); }                           \
  extern "C" void vc_cresize_##L(T *a, int r, int c) { a->cresize(r, c); }                         \
  extern "C" void vc_fill_##L(T *a, double v) { a->fill_with(v); }                                 \
  extern "C" void vc_mul_##L(T *a, double v) { a->multiply(v); }                                   \
  extern "C" double *vc_at_##L(T *a, int i, int j) { return &(*a)(i, j); }                         \
  extern "C" const double *vc_cat_##L(const T *a, int i, int j) { return &(*a)(i, j); }            \
  extern "C" void vc_slices_##L(T *a, int i, const double **o) {                                   \
    const T *ca = a;                                                                               \
    o[0] = a->slice(i);                                                                            \
    o[1] = ca->slice(i);                                                                           \
    rc(*a, *ca, i, o);                                                                             \
    o[4] = a->data();                                                                              \
    o[5] = ca->data();                                                                             \
  }                                                                                                \
  extern "C" void vc_dims_##L(const T *a, int *o, unsigned long *n) {                              \
    o[0] = a->rows();                                                                              \
    o[1] = a->cols();                                                                              \
    n[0] = a->num_elements();                                                                      \
  }                                                                                                \
  /* expressions */                                                                                \
  extern "C" void vc_e_sum_##L(T *o, const T *a, const T *b) { new (o) T(*a + *b); }               \
  extern "C" void vc_e_sums_##L(T *o, const T *a, const T *b, double f) { new (o) T(*a + *b * f); } \
  extern "C" void vc_e_ssum_##L(T *o, const T *a, const T *b, double f, double g) {                \
    new (o) T(f * *a + *b * g);                                                                    \
  }                                                                                                \
  extern "C" void vc_e_scale_##L(T *o, const T *a, double f) { new (o) T(*a * f); }                \
  extern "C" void vc_e_scale2_##L(T *o, const T *a, double f) { new (o) T(f * *a); }               \
  extern "C" void vc_e_sum3_##L(T *o, const T *a, const T *b, const T *d, double f) {              \
    new (o) T((*a + *b) + *d * f);                                                                 \
  }                                                                                                \
  extern "C" void vc_e_sum3m_##L(T *o, const T *a, const T *b, const T *d, double f) {             \
    new (o) T((*a + *b * f) + *d);                                                                 \
  }                                                                                                \
  extern "C" void vc_e_rsum_##L(T *o, const T *a, const T *b, int r, int c) {                      \
    new (o) T(a->reduced_view(r, c) + b->reduced_view(r, c));                                      \
  }                                                                                                \
  extern "C" void vc_e_rsums_##L(T *o, const T *a, const T *b, int r, int c, double f) {           \
    new (o) T(a->reduced_view(r, c) + b->reduced_view(r, c) * f);                                  \
  }                                                                                                \
  extern "C" T *vc_a_mat_##L(T *o, const T *a) { return &(*o += *a); }                             \
  extern "C" T *vc_a_scale_##L(T *o, const T *a, double f) { return &(*o += *a * f); }             \
  extern "C" T *vc_a_sum_##L(T *o, const T *a, const T *b) { return &(*o += *a + *b); }            \
  extern "C" T *vc_a_sums_##L(T *o, const T *a, const T *b, double f) { return &(*o += *a + *b * f); } \
  extern "C" T *vc_a_view_##L(T *o, const T *a, int r, int c) { return &(*o += a->reduced_view(r, c)); } \
  extern "C" T *vc_a_views_##L(T *o, const T *a, int r, int c, double f) {                         \
    return &(*o += f * a->reduced_view(r, c));                                                     \
  }                                                                                                \
  extern "C" T *vc_a_viewsum_##L(T *o, const T *a, const T *b, int r, int c, double f) {           \
    return &(*o += a->reduced_view(r, c) + b->reduced_view(r, c) * f);                             \
  }                                                                                                \
  extern "C" T *vc_a_viewsum2_##L(T *o, const T *a, const T *b, int r, int c, double f) {          \
    return &(*o += f * a->reduced_view(r, c) + b->reduced_view(r, c) * f);                         \
  }                                                                                                \
  }
DEF(RowWise)
DEF(ColumnWise)
DEF(Trapezoid)
DEF(LwTriangularRowWise)
DEF(LwTriangularColWise)
