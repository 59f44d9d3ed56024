#include "gravity.hpp"
#include "nat.hpp"
using namespace nat;
typedef Eigen::Matrix<double, 3, 1> V;
typedef Eigen::Matrix<double, 3, 3> M;
typedef long double ld;
static void acc(const ld *r, const ld *s, ld gm, ld *a) {
  ld d[3], q = 0, w = 0;
  for (int i = 0; i < 3; i++) d[i] = r[i] - s[i], q += d[i] * d[i], w += s[i] * s[i];
  ld d3 = q * sqrtl(q), s3 = w * sqrtl(w);
  for (int i = 0; i < 3; i++) a[i] = -gm * (d[i] / d3 + s[i] / s3);
}
int main(int argc, char **argv) {
  start(argc, argv);
  long N = thorough ? 400000 : 40000;
  for (long t = 0; t < N; t++) {
    V r, s;
    int k = ri(0, 3);
    double rs = k == 0 ? 7e6 : k == 1 ? 1 : std::pow(10, rd(-3, 9)), ss = k == 0 ? (ri(0, 1) ? 3.8e8 : 1.5e11) : k == 1 ? 2 : std::pow(10, rd(-3, 12));
    for (int i = 0; i < 3; i++) r(i) = rs * rd(-1, 1), s(i) = ss * rd(-1, 1);
    if (ri(0, 5) == 0) s(ri(0, 2)) = 0;
    if (ri(0, 5) == 0) r(ri(0, 2)) = 0;
    if (ri(0, 9) == 0) r = -s;
    double gm = ri(0, 3) ? std::pow(10, rd(0, 20)) : (ri(0, 1) ? 0. : -1.);
    mark(fmt("r=%.17g,%.17g,%.17g s=%.17g,%.17g,%.17g gm=%.17g", r(0), r(1), r(2), s(0), s(1), s(2), gm));
    M J = M::Constant(std::nan(""));
    V a1 = dso::point_mass_acceleration(r, s, gm), a2 = dso::point_mass_acceleration(r, s, gm, J);
    ld R[3] = {r(0), r(1), r(2)}, S[3] = {s(0), s(1), s(2)}, A[3];
    acc(R, S, gm, A);
    ld d[3], q = 0, w = 0;
    for (int i = 0; i < 3; i++) d[i] = R[i] - S[i], q += d[i] * d[i], w += S[i] * S[i];
    if (q < 1e-12L * w || w == 0) continue;
    ld sc = fabsl((ld)gm) * (1 / q + 1 / w);
    for (int i = 0; i < 3; i++) {
      ck(fabsl(a1(i) - A[i]) <= 1e-11L * sc, "acceleration", fmt("component %d got %.17g expected %.17Lg", i, a1(i), A[i]));
      ck(fabsl(a2(i) - A[i]) <= 1e-11L * sc, "acceleration (overload with Jacobian)", fmt("component %d got %.17g expected %.17Lg", i, a2(i), A[i]));
      for (int j = 0; j < 3; j++) {
        ld e = -(ld)gm * ((i == j ? 1 : 0) / (q * sqrtl(q)) - 3 * d[i] * d[j] / (q * q * sqrtl(q)));
        ck(fabsl(J(i, j) - e) <= 1e-11L * fabsl((ld)gm) / (q * sqrtl(q)), "Jacobian", fmt("(%d,%d) got %.17g expected %.17Lg", i, j, J(i, j), e));
      }
    }
  }
  return finish();
}
