// Entry points: normalised associated Legendre functions
#include <new>
#include <utility>
#include "gravity.hpp"
#include "gravity/forward_column_alf.cpp"
#include "n_lc.hpp"
extern "C" {
int vc_alf(double th, int n, int m, LCM *P) { return dso::normalised_associated_legendre_functions(th, n, m, *P); }
int vc_dalf(double th, int n, int m, LCM *P, LCM *dP) { return dso::normalised_associated_legendre_functions(th, n, m, *P, *dP); }
}
