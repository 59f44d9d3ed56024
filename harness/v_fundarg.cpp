// Entry points: lunisolar and planetary arguments, their rates and their epoch overloads
#include "fundarg/fundarg.cpp"
#define ONE(f)                                                                                                         \
  double vc_t_##f(double t) { return dso::iers2010::f(t); }                                                            \
  double vc_e_##f(int m, double s) {                                                                                   \
    const dso::MjdEpoch e(m, s);                                                                                       \
    return dso::f(e);                                                                                                  \
  }
extern "C" {
ONE(fal03) ONE(falp03) ONE(faf03) ONE(fad03) ONE(faom03)
ONE(dfal03) ONE(dfalp03) ONE(dfaf03) ONE(dfad03) ONE(dfaom03)
ONE(fame03) ONE(fave03) ONE(fae03) ONE(fama03) ONE(faju03) ONE(fasa03) ONE(faur03) ONE(fane03) ONE(fapa03)
double *vc_t_fundarg(double t, double *o) { return dso::iers2010::fundarg(t, o); }
double *vc_t_fundarg_derivs(double t, double *o) { return dso::iers2010::fundarg_derivs(t, o); }
double *vc_e_fundarg(int m, double s, double *o) {
  const dso::MjdEpoch e(m, s);
  return dso::fundarg(e, o);
}
double *vc_e_fundarg_derivs(int m, double s, double *o) {
  const dso::MjdEpoch e(m, s);
  return dso::fundarg_derivs(e, o);
}
}
