// Spherical harmonics acceleration and gradient (PART 11) against second order jets of the truncated potential in
// long double; requests, scratch space and memory (PART 12).
#include <new>
#include <utility>
#include "gravity.hpp"
#include "stokes_coefficients.hpp"
#include "nat.hpp"
using namespace nat;
typedef long double ld;
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> LC;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
static long live = 0;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); ++live; return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); ++live; return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { void *p = malloc(n ? n : 1); ++live; return p; }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { void *p = malloc(n ? n : 1); ++live; return p; }
void operator delete(void *p) noexcept { if (p) --live; free(p); }
void operator delete[](void *p) noexcept { if (p) --live; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) --live; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) --live; free(p); }

static const int IX[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}};
struct J { // value, gradient, Hessian
  ld v, g[3], h[6];
  J(ld c = 0) : v(c), g{0, 0, 0}, h{0, 0, 0, 0, 0, 0} {}
};
static J operator+(const J &a, const J &b) {
  J r(a.v + b.v);
  for (int i = 0; i < 3; i++) r.g[i] = a.g[i] + b.g[i];
  for (int i = 0; i < 6; i++) r.h[i] = a.h[i] + b.h[i];
  return r;
}
static J operator*(ld c, const J &a) {
  J r(c * a.v);
  for (int i = 0; i < 3; i++) r.g[i] = c * a.g[i];
  for (int i = 0; i < 6; i++) r.h[i] = c * a.h[i];
  return r;
}
static J operator*(const J &a, const J &b) {
  J r(a.v * b.v);
  for (int i = 0; i < 3; i++) r.g[i] = a.v * b.g[i] + a.g[i] * b.v;
  for (int i = 0; i < 3; i++)
    for (int j = i; j < 3; j++) r.h[IX[i][j]] = a.v * b.h[IX[i][j]] + a.g[i] * b.g[j] + a.g[j] * b.g[i] + a.h[IX[i][j]] * b.v;
  return r;
}
static J invsqrt(const J &a) { // a^(-1/2)
  ld f = 1 / sqrtl(a.v), d = -f / (2 * a.v), e = 3 * f / (4 * a.v * a.v);
  J r(f);
  for (int i = 0; i < 3; i++) r.g[i] = d * a.g[i];
  for (int i = 0; i < 3; i++)
    for (int j = i; j < 3; j++) r.h[IX[i][j]] = d * a.h[IX[i][j]] + e * a.g[i] * a.g[j];
  return r;
}
struct Ref {
  ld a[3], g[6], sa, sg; // derivatives, sizes of the contributions
};
static Ref reference(const dso::StokesCoeffs &c, const V3 &r, int N, int Mo, ld Re, ld GM) {
  J x(r(0)), y(r(1)), z(r(2));
  x.g[0] = y.g[1] = z.g[2] = 1;
  J ri = invsqrt(x * x + y * y + z * z), u = x * ri, v = y * ri, t = z * ri, q = Re * ri;
  std::vector<J> pw(N + 1, J(1)), A(Mo + 1, J(1)), B(Mo + 1, J(0));
  for (int n = 1; n <= N; n++) pw[n] = pw[n - 1] * q;
  for (int m = 1; m <= Mo; m++) {
    A[m] = A[m - 1] * u + (-1.0L) * (B[m - 1] * v);
    B[m] = A[m - 1] * v + B[m - 1] * u;
  }
  J s(0);
  ld sa = 0, sg = 0, d = 1;
  for (int m = 0; m <= Mo; m++) {
    if (m) d *= sqrtl((2.0L * m + 1) / (2 * m) * (m == 1 ? 2 : 1));
    J h2(0), h1(d);
    for (int n = m; n <= N; n++) {
      if (n > m) {
        ld a = sqrtl((2.0L * n - 1) * (2.0L * n + 1) / ((ld)(n - m) * (n + m)));
        ld b = n == m + 1 ? 0 : sqrtl((2.0L * n + 1) * (n + m - 1.0L) * (n - m - 1.0L) / ((ld)(n - m) * (n + m) * (2.0L * n - 3)));
        J h = a * (t * h1) + (-b) * h2;
        h2 = h1, h1 = h;
      }
      J cs = (ld)c.C(n, m) * A[m];
      if (m) cs = cs + (ld)c.S(n, m) * B[m];
      J k = pw[n] * (h1 * cs);
      ld w = powl(q.v, n) * (fabsl(c.C(n, m)) + (m ? fabsl(c.S(n, m)) : 0));
      sa += w * (n + 1);
      sg += w * (n + 1) * (n + 2);
      s = s + k;
    }
  }
  s = GM * (ri * s);
  Ref o;
  ld rn = 1 / ri.v;
  for (int i = 0; i < 3; i++) o.a[i] = s.g[i];
  for (int i = 0; i < 6; i++) o.g[i] = s.h[i];
  o.sa = GM / (rn * rn) * sa * 8, o.sg = GM / (rn * rn * rn) * sg * 16;
  return o;
}
// a coefficient set: entries the request must ignore are large
static void fill(dso::StokesCoeffs &c, int N, int Mo, double out) {
  for (int m = 0; m <= c.max_order(); m++)
    for (int n = m; n <= c.max_degree(); n++) {
      bool in = n <= N && m <= Mo;
      c.C(n, m) = in ? rv() / (1 + n) : out * rv();
      c.S(n, m) = in && m ? rv() / (1 + n) : out * rv();
    }
}
static V3 pos(double Re, int N) {
  double rad = Re * (N > 30 ? rd(1.0, 1.4) : rd(0.7, 3));
  int k = ri(0, 9);
  double th = k == 0 ? M_PI / 2 : k == 1 ? -M_PI / 2 : k == 2 ? 0 : rd(-1.57, 1.57), la = k == 3 ? 0 : rd(-M_PI, M_PI);
  V3 r(rad * cos(th) * cos(la), rad * cos(th) * sin(la), rad * sin(th));
  if (k < 2) r(0) = r(1) = 0;
  return r;
}
#if PART == 11
static void one(int cN, int cM, int N, int Mo, bool far, bool dflt) {
  double Re = ri(0, 2) ? rd(0.5, 3) : 6378137.0, GM = ri(0, 2) ? rd(0.5, 3) : 3.986e14;
  dso::StokesCoeffs c(cN, cM, GM, Re);
  fill(c, N, Mo, ri(0, 1) ? 1e25 : 1.0);
  V3 r = pos(Re, N), a(rv(), rv(), rv());
  M3 g;
  for (int i = 0; i < 9; i++) g(i) = rv();
  bool dd = dflt && N == cN, dm = dflt && Mo == cM;
  mark(fmt("coefficients %dx%d degree %d order %d Re %.17g GM %.17g r (%.17g,%.17g,%.17g) defaults %d", cN, cM, N, Mo, Re, GM, r(0), r(1), r(2), dflt));
  int rc = dso::sh2gradient_cunningham(c, r, a, g, dd ? -1 : N, dm ? -1 : Mo, dflt ? -1 : Re, dflt ? -1 : GM);
  if (rc) return fail("status", fmt("%d", rc));
  Ref o = reference(c, r, N, Mo, Re, GM);
  ld tol = N > 30 ? 1e-8 : 1e-11;
  for (int i = 0; i < 3; i++) {
    if (!(fabsl(a(i) - o.a[i]) <= tol * o.sa)) return fail("acceleration", fmt("component %d: %.17g expected %.17Lg", i, a(i), o.a[i]));
    for (int j = 0; j < 3; j++) {
      if (!(fabsl(g(i, j) - o.g[IX[i][j]]) <= tol * o.sg)) return fail("gradient", fmt("(%d,%d): %.17g expected %.17Lg", i, j, g(i, j), o.g[IX[i][j]]));
      if (!(fabs(g(i, j) - g(j, i)) <= 1e-12 * o.sg)) return fail("symmetric", fmt("(%d,%d): %.17g vs %.17g", i, j, g(i, j), g(j, i)));
    }
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  for (int N = 0; N <= 7; N++)
    for (int Mo = 0; Mo <= N; Mo++) one(N, N, N, Mo, false, false), one(N + 2, Mo, N, Mo, false, true), one(N, Mo, N, Mo, false, true);
  // every coefficient alone (a factor wrong for one coefficient cannot hide)
  for (int n = 0; n <= 12; n++)
    for (int m = 0; m <= n; m++)
      for (int k = 0; k < 2; k++) {
        dso::StokesCoeffs c(n + 1, n + 1, 1.3, 1.7);
        for (int j = 0; j <= n + 1; j++)
          for (int i = j; i <= n + 1; i++) c.C(i, j) = c.S(i, j) = 0;
        (k ? c.S(n, m) : c.C(n, m)) = 1;
        V3 r = pos(1.7, n), a;
        M3 g;
        mark(fmt("single coefficient %c(%d,%d) r (%.17g,%.17g,%.17g)", "CS"[k], n, m, r(0), r(1), r(2)));
        if (dso::sh2gradient_cunningham(c, r, a, g, n, m)) { fail("status", ""); continue; }
        Ref o = reference(c, r, n, m, 1.7L, 1.3L);
        for (int i = 0; i < 3; i++) {
          if (!(fabsl(a(i) - o.a[i]) <= 1e-12L * (o.sa + 1e-300L))) fail("acceleration", fmt("component %d: %.17g expected %.17Lg", i, a(i), o.a[i]));
          for (int j = 0; j < 3; j++)
            if (!(fabsl(g(i, j) - o.g[IX[i][j]]) <= 1e-12L * (o.sg + 1e-300L))) fail("gradient", fmt("(%d,%d): %.17g expected %.17Lg", i, j, g(i, j), o.g[IX[i][j]]));
        }
      }
  int K = thorough ? 60000 : 6000;
  for (int i = 0; i < K; i++) {
    int N = ri(0, 9) ? ri(0, 15) : ri(16, 60), Mo = ri(0, 2) ? ri(0, N) : ri(0, 1) ? N : ri(0, 1) ? 0 : N > 2 ? N - ri(1, 2) : N;
    int cN = N + ri(0, 3) * ri(0, 1), cM = Mo + (int)ri(0, cN - Mo) * ri(0, 1);
    one(cN, cM, N, Mo, false, ri(0, 1));
  }
  int T = thorough ? 200 : 20;
  for (int i = 0; i < T; i++) one(198 + ri(0, 3), 198, 198, i % 3 ? ri(0, 198) : 198 - i % 2, true, false);
  one(198, 198, 198, 198, true, true);
  return finish();
}
#else
// one request: coefficient set, degree, order, scratch rows (-1: none), cols
struct Rq { int cN, cM, N, Mo, w, m; double Re, GM; };
static LC *scratch(int n) {
  if (n < 0) return nullptr;
  LC *p = new LC(n, n);
  int k = ri(0, 3);
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++) (*p)(i, j) = k == 0 ? 0 : k == 1 ? NAN : k == 2 ? 1e300 * rv() : rv();
  return p;
}
static void run(const Rq &q, const dso::StokesCoeffs &c, const V3 &r, bool exact) {
  mark(fmt("coefficients %dx%d request degree %d order %d scratch %d,%d Re %g GM %g", q.cN, q.cM, q.N, q.Mo, q.w, q.m, q.Re, q.GM));
  LC *W = scratch(q.w), *M = scratch(q.m);
  V3 a(7, 8, 9);
  M3 g = M3::Zero();
  long before = live;
  int rc = dso::sh2gradient_cunningham(c, r, a, g, q.N, q.Mo, q.Re, q.GM, W, M);
  long lost = live - before;
  int N = q.N < 0 ? c.max_degree() : q.N, Mo = q.Mo < 0 ? c.max_order() : q.Mo;
  bool bad = Mo > N || N > c.max_degree() || Mo > c.max_order() || N > 198 || (q.w >= 0 && q.w < N + 3) || (q.m >= 0 && q.m < N + 3);
  if (bad && !rc) fail("bad request accepted", "");
  if (!bad && rc) fail("good request refused", fmt("%d", rc));
  if (lost) fail("memory balance", fmt("%ld blocks", lost));
  if (W && (W->rows() != q.w)) fail("scratch dimensions", "W");
  if (M && (M->rows() != q.m)) fail("scratch dimensions", "M");
  if (!bad && !rc) {
    V3 a2;
    M3 g2;
    // the same request with everything spelled out and fresh scratch
    rc = dso::sh2gradient_cunningham(c, r, a2, g2, N, Mo, q.Re < 0 ? c.Re() : q.Re, q.GM < 0 ? c.GM() : q.GM);
    if (rc) fail("good request refused", "explicit");
    for (int i = 0; i < 9; i++)
      if ((i < 3 && !bits(a(i), a2(i))) || !bits(g(i), g2(i))) { fail("result depends on the scratch space or the defaults", fmt("entry %d: %.17g %.17g", i, g(i), g2(i))); break; }
    if (live != before) fail("memory balance", "");
  }
  delete W;
  delete M;
}
int main(int argc, char **argv) {
  start(argc, argv);
  stderr = fopen("/dev/null", "w"); // the refusals are chatty; the sanitizers write to the descriptor
  { // static tables first
    dso::StokesCoeffs c(1, 1, 1, 1);
    fill(c, 1, 1, 1);
    V3 r(1, 2, 3), a;
    M3 g;
    dso::sh2gradient_cunningham(c, r, a, g);
  }
  int K = thorough ? 300000 : 20000;
  for (int i = 0; i < K; i++) {
    Rq q;
    q.cN = ri(0, 9) ? ri(0, 12) : ri(0, 1) ? ri(195, 203) : ri(20, 60);
    q.cM = ri(0, 1) ? q.cN : ri(0, q.cN);
    q.N = ri(0, 3) ? ri(0, q.cN) : ri(0, 1) ? -ri(1, 3) : q.cN + ri(0, 2);
    int N = q.N < 0 ? q.cN : q.N;
    q.Mo = ri(0, 3) ? ri(0, std::min(N, q.cM)) : ri(0, 1) ? -ri(1, 3) : ri(0, 1) ? N + ri(0, 2) : q.cM + ri(0, 2);
    q.w = ri(0, 1) ? -1 : ri(0, 2) ? N + 3 + ri(0, 2) : std::max(1L, N + ri(0, 2));
    q.m = ri(0, 1) ? -1 : ri(0, 2) ? N + 3 + ri(0, 2) : std::max(1L, N + ri(0, 2));
    q.Re = ri(0, 1) ? -1 : rd(0.5, 2), q.GM = ri(0, 1) ? -1 : rd(0.5, 2);
    dso::StokesCoeffs c(q.cN, q.cM, 1.5, 0.9);
    fill(c, q.cN, q.cM, 1);
    run(q, c, pos(1, N), true);
  }
  return finish();
}
#endif
