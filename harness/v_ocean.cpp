// Entry points: superposition of the waves of a tide model.  GMST is an unknown function here.
#include "ocean_tide_inc.hpp"
#include "stokes_coefficients.cpp"
extern "C" double vc_u_gmst(double, double, double, double) noexcept;
double dso::gmst(const dso::MjdEpoch &t, const dso::MjdEpoch &u) noexcept { return vc_u_gmst(t.m, t.f, u.m, u.f); }
static dso::MjdEpoch epoch(const double *t) {
  dso::MjdEpoch e;
  e.m = t[0];
  e.f = t[1];
  return e;
}
typedef dso::TidalConstituent T;
extern "C" {
unsigned long vc_sz() { return sizeof(dso::StokesCoeffs); }
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> M;
unsigned long vc_sizeof_LwTriangularColWise() { return sizeof(M); }
void vc_ctor_LwTriangularColWise(M *m, int r, int c) { new (m) M(r, c); }
void vc_parts(dso::StokesCoeffs *s, void **o) {
  o[0] = &s->Cnm();
  o[1] = &s->Snm();
  o[2] = &s->GM();
  o[3] = &s->Re();
  o[4] = &s->normalized();
}
void vc_ctor4(dso::StokesCoeffs *o, int n, int m, double gm, double re) { new (o) dso::StokesCoeffs(n, m, gm, re); }
long vc_layout(int i) {
  char b[4096];
  const T *t = reinterpret_cast<const T *>(b);
  const dso::OceanTide *o = reinterpret_cast<const dso::OceanTide *>(b);
  const dso::AtmosphericTide *a = reinterpret_cast<const dso::AtmosphericTide *>(b);
  switch (i) {
  case 0: return sizeof(T);
  case 1: return reinterpret_cast<const char *>(&t->mwave) - reinterpret_cast<const char *>(t);
  case 2: return reinterpret_cast<const char *>(&t->mCosCs) - reinterpret_cast<const char *>(t);
  case 3: return reinterpret_cast<const char *>(&t->mSinCs) - reinterpret_cast<const char *>(t);
  case 4: return sizeof(dso::OceanTide);
  case 5: return reinterpret_cast<const char *>(&o->matlas) - reinterpret_cast<const char *>(o);
  case 6: return reinterpret_cast<const char *>(&o->mcs) - reinterpret_cast<const char *>(o);
  case 7: return reinterpret_cast<const char *>(&o->gmodel) - reinterpret_cast<const char *>(o);
  case 8: return sizeof(dso::AtmosphericTide);
  case 9: return reinterpret_cast<const char *>(&a->matlas) - reinterpret_cast<const char *>(a);
  case 10: return reinterpret_cast<const char *>(&a->mcs) - reinterpret_cast<const char *>(a);
  }
  return -1;
}
int vc_ocean(dso::OceanTide *o, const double *t, const double *u, const double *f) { return o->stokes_coeffs(epoch(t), epoch(u), f); }
int vc_atm(dso::AtmosphericTide *o, const double *t, const double *u, const double *f) { return o->stokes_coeffs(epoch(t), epoch(u), f); }
}
