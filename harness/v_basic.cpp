// Entry points for the verifier: thin extern "C" wrappers over the real code of /repo.
#include "kahan.hpp"
#include "gravity.hpp"
#include "gravity/point_mass_acceleration.cpp"

extern "C" {
void vc_kahan_init(double v0, dso::KahanSum *out) { new (out) dso::KahanSum(v0); }
void vc_kahan_add(dso::KahanSum *s, double v) { *s += v; }
double vc_kahan_value(const dso::KahanSum *s) { return static_cast<double>(*s); }
unsigned long vc_kahan_size() { return sizeof(dso::KahanSum); }

void vc_pm(const Eigen::Matrix<double, 3, 1> *r, const Eigen::Matrix<double, 3, 1> *s, double gm,
           Eigen::Matrix<double, 3, 1> *a) {
  *a = dso::point_mass_acceleration(*r, *s, gm);
}
void vc_pmj(const Eigen::Matrix<double, 3, 1> *r, const Eigen::Matrix<double, 3, 1> *s, double gm,
            Eigen::Matrix<double, 3, 1> *a, Eigen::Matrix<double, 3, 3> *j) {
  *a = dso::point_mass_acceleration(*r, *s, gm, *j);
}
}
