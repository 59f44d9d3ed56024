// Solid Earth tide (step 1) and pole tides against long double evaluations of the conventions
#include <cstdio>
#include "nat.hpp"
#include "solid_earth_tide.hpp"
#include "pole_tide.hpp"
#include "pole_tide/ocean_pole_tide_geopotential.cpp"
using namespace nat;
typedef long double L;
typedef Eigen::Matrix<double, 3, 1> V;
static const L PIl = 3.14159265358979323846264338327950288L;
static double step2(int i, const dso::MjdEpoch &t, const dso::MjdEpoch &u, const double *a) {
  return 1e-10 * std::sin(i + 1. + t.f * 3 + u.f * 7 + a[0] + 2 * a[1] + 3 * a[2] + 4 * a[3] + 5 * a[4]);
}
int dso::SolidEarthTide::potential_step2(const dso::MjdEpoch &t, const dso::MjdEpoch &u, const double *const a, double &dC20, double &dC21, double &dS21,
                                         double &dC22, double &dS22) const noexcept {
  double *o[5] = {&dC20, &dC21, &dS21, &dC22, &dS22};
  for (int i = 0; i < 5; i++) *o[i] = step2(i, t, u, a);
  return 0;
}
static L fct(int n) { return n < 2 ? 1 : n * fct(n - 1); }
static L leg(int n, int m, L t) {
  L u = std::sqrt(1 - t * t), p = 0;
  if (n == 2) p = m == 0 ? (3 * t * t - 1) / 2 : m == 1 ? 3 * t * u : 3 * u * u;
  if (n == 3) p = m == 0 ? (5 * t * t * t - 3 * t) / 2 : m == 1 ? 1.5L * (5 * t * t - 1) * u : m == 2 ? 15 * t * u * u : 15 * u * u * u;
  return p * std::sqrt((2 * n + 1) * (m ? 2 : 1) * fct(n - m) / fct(n + m));
}
struct CS { L c, s, mag; };
static CS body(int n, int m, L ratio, L re, const V &p) {
  const L x = p(0), y = p(1), z = p(2), r = std::sqrt(x * x + y * y + z * z), lam = std::atan2(y, x);
  static const L k2r[] = {.30190L, .29830L, .30102L}, k2i[] = {0, -.00144L, -.00130L}, k3[] = {.093L, .093L, .093L, .094L}, kp[] = {-.00089L, -.00080L, -.00057L};
  const int d = n == 4 ? 2 : n;
  if (m > d) return {0, 0, 0};
  const L kr = n == 4 ? kp[m] : n == 3 ? k3[m] : k2r[m], ki = n == 2 ? k2i[m] : 0;
  const L f = ratio * std::pow(re / r, (L)(d + 1)) * leg(d, m, z / r) / (2 * d + 1), c = std::cos(m * lam), s = std::sin(m * lam);
  return {f * (kr * c + ki * s), m ? f * (kr * s - ki * c) : 0, ratio * std::pow(re / r, (L)(d + 1)) * std::abs(kr)};
}
static CS sum(int n, int m, const double *par, const V &moon, const V &sun) {
  const CS a = body(n, m, (L)par[3] / par[0], par[1], moon), b = body(n, m, (L)par[2] / par[0], par[1], sun);
  return {a.c + b.c, a.s + b.s, a.mag + b.mag};
}
static V far(double lo, double hi) {
  V v;
  do { for (int i = 0; i < 3; i++) v(i) = rd(-1, 1); } while (v.norm() < 0.1 || std::hypot(v(0), v(1)) < 1e-3);
  return v / v.norm() * rd(lo, hi);
}
static void disp(L re, L ratio, const V &x, const V &p, L *enu) {
  L r = 0, R = 0, w = 0;
  for (int i = 0; i < 3; i++) r += (L)x(i) * x(i), R += (L)p(i) * p(i);
  r = std::sqrt(r), R = std::sqrt(R);
  L a[3], b[3];
  for (int i = 0; i < 3; i++) a[i] = x(i) / r, b[i] = p(i) / R, w += a[i] * b[i];
  const L lat = std::asin(a[2]), lon = std::atan2((L)x(1), (L)x(0)), P = std::asin(b[2]), dl = lon - std::atan2((L)p(1), (L)p(0));
  const L p2 = (3 * a[2] * a[2] - 1) / 2, h2 = .6078L - .0006L * p2, l2 = .0847L + .0002L * p2, q = re / R;
  L g[3];
  for (int i = 0; i < 3; i++)
    g[i] = h2 * a[i] * (1.5L * w * w - .5L) + 3 * l2 * w * (b[i] - w * a[i]) +
           q * (.292L * a[i] * (2.5L * w * w * w - 1.5L * w) + .015L * (7.5L * w * w - 1.5L) * (b[i] - w * a[i]));
  const L sf = std::sin(lat), cf = std::cos(lat), sl = std::sin(lon), cl = std::cos(lon), f = ratio * q * q * q * re;
  L e = -sl * g[0] + cl * g[1], n = -sf * cl * g[0] - sf * sl * g[1] + cf * g[2], u = cf * cl * g[0] + cf * sl * g[1] + sf * g[2];
  const L P21 = 3 * std::sin(P) * std::cos(P), P22 = 3 * std::cos(P) * std::cos(P);
  u += -.75L * -.0025L * std::sin(2 * P) * std::sin(2 * lat) * std::sin(dl) - .75L * -.0022L * std::cos(P) * std::cos(P) * cf * cf * std::sin(2 * dl);
  n += -1.5L * -.0007L * std::sin(2 * P) * std::cos(2 * lat) * std::sin(dl) + .75L * -.0007L * std::cos(P) * std::cos(P) * std::sin(2 * lat) * std::sin(2 * dl);
  e += -1.5L * -.0007L * std::sin(2 * P) * sf * std::cos(dl) - 1.5L * -.0007L * std::cos(P) * std::cos(P) * cf * std::cos(2 * dl);
  n += -.0012L * sf * P21 * sf * std::cos(dl) - .5L * .0024L * sf * cf * P22 * std::cos(2 * dl);
  e += .0012L * sf * P21 * std::cos(2 * lat) * std::sin(dl) - .5L * .0024L * sf * cf * P22 * sf * std::sin(2 * dl);
  enu[0] += f * e, enu[1] += f * n, enu[2] += f * u;
}
static dso::MjdEpoch ep() { return dso::MjdEpoch(ri(40000, 65000), rd(0, 1)); }
int main(int argc, char **argv) {
  start(argc, argv);
  for (int n = 30; n < 360; n++)
    ck(std::abs(kn[n] - (kn[n - 1] + kn[n + 1]) / 2) < 2e-3 * std::abs(kn[n]) && kn[n] < kn[n + 1], "load Love numbers: smooth and increasing", fmt("degree %d", n));
  for (int q = 0; q < (thorough ? 60000 : 4000); q++) {
    double par[4] = {3.986004418e14, 6378136.6, 1.32712442099e20, 4.902799e12};
    if (q % 3) par[0] *= rd(.5, 2), par[1] *= rd(.5, 2), par[2] *= rd(.5, 2), par[3] *= rd(.5, 2);
    const V moon = far(3e8, 5e8), sun = far(1.4e11, 1.6e11), sta = far(6.2e6, 6.5e6);
    mark(fmt("par %.17g %.17g %.17g %.17g moon %.17g %.17g %.17g sun %.17g %.17g %.17g sta %.17g %.17g %.17g", par[0], par[1], par[2], par[3], moon(0), moon(1), moon(2), sun(0), sun(1), sun(2), sta(0), sta(1), sta(2)));
    dso::SolidEarthTide t(par[0], par[1], par[2], par[3]);
    if (q % 2) {
      const double z[5] = {1, 2, 3, 4, 5};
      t.stokes_coeffs(ep(), ep(), far(3e8, 4e8), far(1e11, 2e11), z);
    }
    const dso::MjdEpoch tt = ep(), ut = ep();
    double fa[5];
    for (double &x : fa) x = rv();
    ck(t.stokes_coeffs(tt, ut, moon, sun, fa) == 0, "solid Earth tide: status", cur);
    for (int n = 0; n < 5; n++)
      for (int m = 0; m <= n; m++) {
        CS w = n < 2 ? CS{0, 0, 0} : sum(n, m, par, moon, sun);
        if (n == 2) {
          w.c += step2(m == 0 ? 0 : m == 1 ? 1 : 3, tt, ut, fa);
          if (m) w.s += step2(m == 1 ? 2 : 4, tt, ut, fa);
        }
        const double c = t.stokes_coeffs().C(n, m), s = t.stokes_coeffs().S(n, m);
        ck(std::abs(c - w.c) <= 1e-12L * w.mag + 1e-23L && std::abs(s - w.s) <= 1e-12L * w.mag + 1e-23L, "solid Earth tide coefficients",
           fmt("n=%d m=%d got %.17g %.17g expected %.17g %.17g %s", n, m, c, s, (double)w.c, (double)w.s, cur.c_str()));
      }
    std::array<double, 12> dc, ds;
    for (int i = 0; i < 12; i++) dc[i] = rv(), ds[i] = rv();
    t.potential_step1(moon, sun, dc, ds);
    for (int n = 2, i = 0; n < 5; n++)
      for (int m = 0; m <= n; m++, i++) {
        const CS w = sum(n, m, par, moon, sun);
        ck(std::abs(dc[i] - w.c) <= 1e-12L * w.mag && std::abs(ds[i] - w.s) <= 1e-12L * w.mag, "solid Earth tide step 1",
           fmt("n=%d m=%d got %.17g %.17g expected %.17g %.17g %s", n, m, dc[i], ds[i], (double)w.c, (double)w.s, cur.c_str()));
      }
    typedef dso::SolidEarthTide::PointSphericalTrigs P;
    const P px{dso::CartesianCrdConstView(sta)}, pm{dso::CartesianCrdConstView(moon)}, ps{dso::CartesianCrdConstView(sun)};
    const V d = t.step1_displacement(sta, moon, sun, px, pm, ps);
    L w[3] = {0, 0, 0};
    disp(par[1], (L)par[3] / par[0], sta, moon, w);
    disp(par[1], (L)par[2] / par[0], sta, sun, w);
    for (int i = 0; i < 3; i++)
      ck(std::abs(d(i) - w[i]) < 1e-11L, "solid Earth tide displacement, step 1", fmt("component %d got %.17g expected %.17g %s", i, d(i), (double)w[i], cur.c_str()));
    // pole tides
    const double xp = rd(-.6, .6), yp = rd(-.6, .6);
    const L y = ((L)(tt.m - 51544) + ((L)tt.f - .5L)) / 365.25L, m1 = xp - (55 + 1.677L * y) * 1e-3L, m2 = -(yp - (320.5L + 3.460L * y) * 1e-3L);
    const std::string how = fmt("t=%.9g xp=%.17g yp=%.17g", tt.m + tt.f, xp, yp);
    double c, s;
    dso::PoleTide::stokes_coeffs(tt, xp, yp, c, s);
    ck(std::abs(c + 1.333e-9L * (m1 + .0115L * m2)) < 1e-21L && std::abs(s + 1.333e-9L * (m2 - .0115L * m1)) < 1e-21L, "solid Earth pole tide coefficients", how);
    dso::OceanPoleTide::stokes_coeffs(tt, xp, yp, c, s);
    ck(std::abs(c + 2.1778e-10L * (m1 - .01724L * m2)) < 1e-22L && std::abs(s + 1.7232e-10L * (m2 - .03365L * m1)) < 1e-22L, "ocean pole tide dominant coefficients", how);
    const double lat = rd(-1.57, 1.57), lon = rd(-3.14, 3.14);
    const dso::SphericalCrd sp(6378e3, lat, lon);
    const V pd = dso::PoleTide::deformation(tt, xp, yp, dso::SphericalCrdConstView(sp)).mv;
    const L th = PIl / 2 - lat, st = std::sin(th), ct = std::cos(th), sl = std::sin((L)lon), cl = std::cos((L)lon), A = m1 * cl + m2 * sl, B = m1 * sl - m2 * cl;
    const L sr = -33e-3L * std::sin(2 * th) * A, sh = -9e-3L * std::cos(2 * th) * A, sn = 9e-3L * ct * B;
    const L e[3] = {ct * cl * sh - sl * sn + st * cl * sr, ct * sl * sh + cl * sn + st * sl * sr, -st * sh + ct * sr};
    for (int i = 0; i < 3; i++) ck(std::abs(pd(i) - e[i]) < 1e-14L, "solid Earth pole tide displacement", fmt("component %d got %.17g expected %.17g lat=%.17g lon=%.17g ", i, pd(i), (double)e[i], lat, lon) + how);
    dso::OceanPoleTideDesaiCoeffs co = {rv(), rv(), rv(), rv(), rv(), rv()};
    double Re = 6378136.6, GM = 3.986004418e14, om = 7.292115e-5, G = 6.67428e-11, ge = 9.7803278;
    if (q % 2) Re *= rd(.5, 2), GM *= rd(.5, 2), om *= rd(.5, 2), G *= rd(.5, 2), ge *= rd(.5, 2);
    const V od = dso::OceanPoleTide::deformation(tt, xp, yp, dso::SphericalCrdConstView(sp), co, Re, GM, om, G, ge).mv;
    const L rad = PIl / 648000, fr = (m1 * .6870L + m2 * .0036L) * rad, fi = (m2 * .6870L - m1 * .0036L) * rad;
    const L K = 4 * PIl * G * Re * 1025 * (std::sqrt(8 * PIl / 15) * om * om * std::pow((L)Re, 4) / GM) / (3 * (L)ge);
    const L E = fr * co.eR + fi * co.eI, N = fr * co.nR + fi * co.nI, U = fr * co.rR + fi * co.rI, sf = std::sin((L)lat), cf = std::cos((L)lat);
    const L o[3] = {K * (-sl * E - sf * cl * N + cf * cl * U), K * (cl * E - sf * sl * N + cf * sl * U), K * (cf * N + sf * U)};
    const L mg = std::abs(K) * (std::abs(fr) + std::abs(fi)) * 4 + 1e-30L;
    for (int i = 0; i < 3; i++) ck(std::abs(od(i) - o[i]) < 1e-12L * mg, "ocean pole tide displacement", fmt("component %d got %.17g expected %.17g lat=%.17g lon=%.17g ", i, od(i), (double)o[i], lat, lon) + how);
  }
  // ocean pole tide expansion
  for (int q = 0; q < (thorough ? 400 : 60); q++) {
    const int D = q == 0 ? 360 : q == 1 ? 0 : ri(0, thorough ? 60 : 20), O = q ? ri(0, D) : D;
    dso::OceanPoleTide t;
    t.mmaxdegree = D, t.mmaxorder = O;
    t.mcs.resize(D, O);
    t.mcs.GM() = 3.986004418e14 * rd(.5, 2), t.mcs.Re() = 6378136.6 * rd(.5, 2);
    dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> *M[4] = {&t.A_real, &t.A_imag, &t.B_real, &t.B_imag};
    for (auto m : M) {
      m->resize(D + 1, D + 1);
      for (int l = 0; l <= D; l++) for (int k = 0; k <= l; k++) (*m)(l, k) = rv();
    }
    for (int pass = 0; pass < 3; pass++) {
      int n = pass && q ? ri(-1, D + 1) : -1, m = pass && q ? ri(-1, O + 1) : -1;
      const int N = n < 0 ? D : n, K = m < 0 ? O : m;
      const double om = 7.292115e-5 * rd(.5, 2), G = 6.67428e-11 * rd(.5, 2), ge = 9.78 * rd(.5, 2), xp = rd(-.6, .6), yp = rd(-.6, .6);
      const dso::MjdEpoch tt = ep();
      mark(fmt("object degree %d order %d request %d %d", D, O, n, m));
      const bool ok = K <= N && N <= D && K <= O;
      const int r = t.stokes_coeffs(tt, xp, yp, n, m, om, G, ge);
      ck((r == 0) == ok, "ocean pole tide expansion: status", cur);
      if (!ok) continue;
      const L y = ((L)(tt.m - 51544) + ((L)tt.f - .5L)) / 365.25L, rad = PIl / 648000, m1 = (xp - (55 + 1.677L * y) * 1e-3L) * rad, m2 = -(yp - (320.5L + 3.460L * y) * 1e-3L) * rad;
      const L fr = m1 * .6870L + m2 * .0036L, fi = m2 * .6870L - m1 * .0036L, Re = t.mcs.Re();
      const L f = om * (L)om * Re * Re * Re * Re / t.mcs.GM() * 4 * PIl * G * 1025 / ge;
      for (int l = 0; l <= N; l++)
        for (int k = 0; k <= l && k <= K; k++) {
          const L R = f * (1 + (L)kn[l]) / (2 * l + 1), c = R * (t.A_real(l, k) * fr + t.A_imag(l, k) * fi), s = R * (t.B_real(l, k) * fr + t.B_imag(l, k) * fi);
          const L mg = std::abs(R) * 2 * (std::abs(fr) + std::abs(fi)) + 1e-40L;
          ck(std::abs(t.mcs.C(l, k) - c) < 1e-11L * mg && std::abs(t.mcs.S(l, k) - s) < 1e-11L * mg, "ocean pole tide expansion",
             fmt("C,S(%d,%d) got %.17g %.17g expected %.17g %.17g ", l, k, t.mcs.C(l, k), t.mcs.S(l, k), (double)c, (double)s) + cur);
        }
    }
  }
  return finish();
}
