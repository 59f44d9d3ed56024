// the coefficient matrix of StokesCoeffs, by the names the matrix contracts use
#pragma once
#include "coeff_matrix_2d.hpp"
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> LCM;
extern "C" unsigned long vc_sizeof_LwTriangularColWise() { return sizeof(LCM); }
extern "C" void vc_ctor_LwTriangularColWise(LCM *o, int r, int c) { new (o) LCM(r, c); }
