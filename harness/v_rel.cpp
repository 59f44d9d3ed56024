// Entry points: relativistic correction of the acceleration
#include "relativity/iers12010_relativistic_correction.cpp"
extern "C" {
void vc_rel(const double *sat, const double *sun, double GMe, double GMs, double J, double c, double beta, double gamma, double *a) {
  Eigen::Matrix<double, 6, 1> r, s;
  for (int i = 0; i < 6; i++) {
    r(i) = sat[i];
    s(i) = sun[i];
  }
  const Eigen::Matrix<double, 3, 1> x = dso::iers2010_relativistic_acceleration(r, s, GMe, GMs, J, c, beta, gamma);
  for (int i = 0; i < 3; i++) a[i] = x(i);
}
void vc_rel_default(const double *sat, const double *sun, double *a) {
  Eigen::Matrix<double, 6, 1> r, s;
  for (int i = 0; i < 6; i++) {
    r(i) = sat[i];
    s(i) = sun[i];
  }
  const Eigen::Matrix<double, 3, 1> x = dso::iers2010_relativistic_acceleration(r, s);
  for (int i = 0; i < 3; i++) a[i] = x(i);
}
}
