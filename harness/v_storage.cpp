// Entry points: index calculus of every storage layout.
#include "coeff_matrix_storage.hpp"
using dso::MatrixStorageType;
template <MatrixStorageType S> using SI = dso::StorageImplementation<S>;

template <MatrixStorageType S> static SI<S> mk(int r, int c, int set, int r0, int c0) {
  if (set) {
    SI<S> s(r0, c0);
    s.__set_dimensions(r, c);
    return s;
  }
  return SI<S>(r, c);
}

#define DEF(L)                                                                                     \
  extern "C" void vc_dims_##L(int r, int c, int set, int r0, int c0, int *o, unsigned long *n) {   \
    auto s = mk<MatrixStorageType::L>(r, c, set, r0, c0);                                          \
    o[0] = s.nrows();                                                                              \
    o[1] = s.ncols();                                                                              \
    o[2] = s.num_slices();                                                                         \
    n[0] = s.num_elements();                                                                       \
  }                                                                                                \
  extern "C" void vc_slice_##L(int r, int c, int set, int r0, int c0, int i, int *o) {             \
    auto s = mk<MatrixStorageType::L>(r, c, set, r0, c0);                                          \
    o[0] = s.slice(i);                                                                             \
    int len = -7;                                                                                  \
    o[1] = s.slice(i, len);                                                                        \
    o[2] = len;                                                                                    \
    o[3] = s.first_row_of_col(i);                                                                  \
    o[4] = s.first_col_of_row(i);                                                                  \
  }                                                                                                \
  extern "C" void vc_index_##L(int r, int c, int set, int r0, int c0, int i, int j, int *o) {      \
    auto s = mk<MatrixStorageType::L>(r, c, set, r0, c0);                                          \
    o[0] = s.index(i, j);                                                                          \
  }
DEF(RowWise)
DEF(ColumnWise)
DEF(Trapezoid)
DEF(LwTriangularRowWise)
DEF(LwTriangularColWise)
