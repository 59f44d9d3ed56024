// Arguments and rates against long double evaluation of the published polynomials
#include "fundarg.hpp"
#include "nat.hpp"
using namespace nat;
typedef long double L;
static const L TW = 6.283185307179586476925286766559L;
static L pol(const L *c, int n, L t) {
  L s = 0;
  for (int k = n - 1; k >= 0; k--) s = s * t + c[k];
  return s;
}
static bool turn(L got, L want) { /* equal up to full turns */
  L d = std::fmod(got - want, TW);
  if (d < 0) d += TW;
  return d < 1e-9L || TW - d < 1e-9L;
}
static const L A[5][5] = {{485868.249036L, 1717915923.2178L, 31.8792L, 0.051635L, -0.00024470L},
                          {1287104.793048L, 129596581.0481L, -0.5532L, 0.000136L, -0.00001149L},
                          {335779.526232L, 1739527262.8478L, -12.7512L, -0.001037L, 0.00000417L},
                          {1072260.703692L, 1602961601.2090L, -6.3706L, 0.006593L, -0.00003169L},
                          {450160.398036L, -6962890.5431L, 7.4722L, 0.007702L, -0.00005939L}};
static const L P[8][2] = {{4.402608842L, 2608.7903141574L}, {3.176146697L, 1021.3285546211L}, {1.753470314L, 628.3075849991L}, {6.203480913L, 334.0612426700L},
                          {0.599546497L, 52.9690962641L}, {0.874016757L, 21.3299104960L}, {5.481293872L, 7.4781598567L}, {5.311886287L, 3.8133035638L}};
int main(int argc, char **argv) {
  start(argc, argv);
  namespace I = dso::iers2010;
  typedef double (*FT)(double);
  typedef double (*FE)(const dso::MjdEpoch &);
  const FT f[5] = {I::fal03, I::falp03, I::faf03, I::fad03, I::faom03}, d[5] = {I::dfal03, I::dfalp03, I::dfaf03, I::dfad03, I::dfaom03},
           p[8] = {I::fame03, I::fave03, I::fae03, I::fama03, I::faju03, I::fasa03, I::faur03, I::fane03};
  const FE fe[5] = {dso::fal03, dso::falp03, dso::faf03, dso::fad03, dso::faom03}, de[5] = {dso::dfal03, dso::dfalp03, dso::dfaf03, dso::dfad03, dso::dfaom03},
           pe[8] = {dso::fame03, dso::fave03, dso::fae03, dso::fama03, dso::faju03, dso::fasa03, dso::faur03, dso::fane03};
  for (int q = 0; q < (thorough ? 200000 : 5000); q++) {
    const dso::MjdEpoch e(51544 + ri(-150000, 150000), rd(0, 1));
    const double t = e.jcenturies_sinceJ2000();
    mark(fmt("t=%.17g mjd=%d fraction=%.17g", t, e.m, e.f));
    double v[5], w[5], ve[5], we[5];
    ck(I::fundarg(t, v) == v && I::fundarg_derivs(t, w) == w && dso::fundarg(e, ve) == ve && dso::fundarg_derivs(e, we) == we, "vectors returned");
    for (int k = 0; k < 5; k++) {
      const L as = TW / 1296000.0L, want = pol(A[k], 5, t) * as;
      const double x = f[k](t);
      ck(std::abs(x) < TW && turn(x, want), "argument");
      const L D[4] = {A[k][1], 2 * A[k][2], 3 * A[k][3], 4 * A[k][4]};
      const L r = pol(D, 4, t) * as;
      ck(std::abs(d[k](t) - r) <= 1e-14L * std::abs(r), "rate of an argument");
      ck(v[k] == x && fe[k](e) == x && ve[k] == x, "argument: vector, epoch overload");
      ck(w[k] == d[k](t) && de[k](e) == w[k] && we[k] == w[k], "rate: vector, epoch overload");
    }
    for (int k = 0; k < 8; k++) {
      const double x = p[k](t);
      ck(std::abs(x) < TW && turn(x, P[k][0] + P[k][1] * (L)t) && pe[k](e) == x, "planetary argument");
    }
    const double g = I::fapa03(t);
    ck(std::abs(g - (0.024381750L + 0.00000538691L * (L)t) * t) < 1e-14 * (std::abs(t) + 1e-3) && dso::fapa03(e) == g, "general precession");
  }
  return finish();
}
