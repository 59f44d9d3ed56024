// Normalised associated Legendre functions (PART 8 values, PART 9 derivatives) against the closed form for
// small degrees (polynomial derivatives, long double) and the long double recurrence for large ones.
#include "gravity.hpp"
#include "nat.hpp"
using namespace nat;
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> M;
typedef long double ld;
// P_n^m(t)/u^m without Condon-Shortley phase: m-th derivative of the Legendre polynomial
static ld closed(int n, int m, ld t, ld u) {
  std::vector<ld> p(n + 1, 0), q(n + 1, 0), r;
  p[0] = 1;
  if (n) {
    std::vector<ld> a(n + 1, 0), b(n + 1, 0);
    a[0] = 1, b[1] = 1;
    for (int k = 2; k <= n; k++) {
      std::vector<ld> c(n + 1, 0);
      for (int i = 0; i < n; i++) c[i + 1] += (2 * k - 1) * b[i] / k;
      for (int i = 0; i <= n; i++) c[i] -= (k - 1) * a[i] / k;
      a = b, b = c;
    }
    p = b;
  }
  for (int k = 0; k < m; k++) {
    for (int i = 0; i < n; i++) p[i] = p[i + 1] * (i + 1);
    p[n] = 0;
  }
  ld s = 0;
  for (int i = n; i >= 0; i--) s = s * t + p[i];
  ld f = (2 * n + 1) * (m ? 2 : 1);
  for (int k = n - m + 1; k <= n + m; k++) f /= k;
  return s * powl(u, m) * sqrtl(f);
}
static std::vector<std::vector<ld>> rec(int N, int Mo, ld t, ld u) {
  std::vector<std::vector<ld>> P(N + 1, std::vector<ld>(Mo + 1, 0));
  for (int m = 0; m <= Mo; m++) {
    P[m][m] = m == 0 ? 1 : m == 1 ? sqrtl(3) * u : u * sqrtl((2.0L * m + 1) / (2.0L * m)) * P[m - 1][m - 1];
    for (int n = m + 1; n <= N; n++) {
      ld a = sqrtl((2.0L * n - 1) * (2.0L * n + 1) / ((ld)(n - m) * (n + m)));
      ld b = n == m + 1 ? 0 : sqrtl((2.0L * n + 1) * (n + m - 1.0L) * (n - m - 1.0L) / ((n - m) * (ld)(n + m) * (2.0L * n - 3)));
      P[n][m] = a * t * P[n - 1][m] - (n == m + 1 ? 0 : b * P[n - 2][m]);
    }
  }
  return P;
}
static void one(int N, int Mo, int r1, int r2, double th, bool big) {
  mark(fmt("degree %d order %d rows %d %d lat %.17g", N, Mo, r1, r2, th));
  M P(r1, r1);
  P.fill_with(rv());
  int rc;
#if PART == 9
  M dP(r2, r2);
  dP.fill_with(rv());
  rc = dso::normalised_associated_legendre_functions(th, N, Mo, P, dP);
#else
  rc = dso::normalised_associated_legendre_functions(th, N, Mo, P);
#endif
  if (rc) return fail("status", fmt("%d", rc));
  ld t = sinl((ld)th), u = cosl((ld)th);
  auto R = rec(N, Mo, t, u);
  for (int n = 0; n <= N; n++)
    for (int m = 0; m <= n && m <= Mo; m++) {
      ld e = n <= 14 ? closed(n, m, t, u) : R[n][m];
      double tol = big ? 1e-6 : 1e-9;
      if (!(fabsl(P(n, m) - e) <= tol * (1 + fabsl(e)))) return fail("value", fmt("P(%d,%d)=%.17g expected %.17Lg", n, m, P(n, m), e));
#if PART == 9
      ld f = n == m ? 0 : sqrtl(((ld)n * n - (ld)m * m) * (2.0L * n + 1) / (2.0L * n - 1));
      ld d = (n * t * R[n][m] - (n == m ? 0 : f * R[n - 1][m])) / u;
      if (!(fabsl(dP(n, m) - d) <= (big ? 1e-4 : 1e-8) * (n + 1) / fabsl(u) * (1 + fabsl(d)))) return fail("derivative", fmt("dP(%d,%d)=%.17g expected %.17Lg", n, m, dP(n, m), d));
      if (n <= 10 && fabsl(u) > 0.05) { // minus the latitude derivative of the closed form
        ld h = 1e-5L;
        ld fd = -(closed(n, m, sinl(th + h), cosl(th + h)) - closed(n, m, sinl(th - h), cosl(th - h))) / (2 * h);
        if (!(fabsl(dP(n, m) - fd) <= 1e-4 * (1 + fabsl(fd)))) return fail("derivative (difference quotient)", fmt("dP(%d,%d)=%.17g expected %.17Lg", n, m, dP(n, m), fd));
      }
#endif
    }
}
int main(int argc, char **argv) {
  start(argc, argv);
  int K = thorough ? 20000 : 1500;
  for (int i = 0; i < K; i++) {
    int N = ri(0, 9) ? ri(0, 15) : ri(16, 60);
    int Mo = ri(0, 2) ? ri(0, N) : ri(0, 1) ? N : 0;
    double th = ri(0, 9) ? rd(-1.55, 1.55) : ri(0, 1) ? rd(-6.2, 6.2) : ri(0, 1) ? 0 : (PART == 8 ? M_PI / 2 : 1.5);
    if (PART == 9 && fabs(cos(th)) < 0.02) th = 0.4;
    one(N, Mo, N + 1 + ri(0, 3) * ri(0, 1), N + 1 + ri(0, 3) * ri(0, 1), th, false);
  }
  int deg[] = {1023, 1200, 1300, 2190};
  for (int i = 0; i < (thorough ? 12 : 4); i++) one(deg[i % 4], ri(0, 60), deg[i % 4] + 1, deg[i % 4] + 1, rd(-1.2, 1.2), true);
  if (thorough) one(23200, 0, 23201, 23201, 0.3, true);
  return finish();
}
