// Rotations against a long double evaluation of the IERS matrices; the series, the locator and the rotation angle are stand-ins
#include <algorithm>
#include <array>
#include <vector>
#define private public
#include "eop.hpp"
#undef private
#include "earth_rotation.hpp"
#include "iau.hpp"
#include "nat.hpp"
using namespace nat;
typedef long double L;
struct M { L a[3][3]; };
static M operator*(const M &x, const M &y) {
  M r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r.a[i][j] = x.a[i][0] * y.a[0][j] + x.a[i][1] * y.a[1][j] + x.a[i][2] * y.a[2][j];
  return r;
}
static M R1(L t) { L c = cosl(t), s = sinl(t); return {{{1, 0, 0}, {0, c, s}, {0, -s, c}}}; }
static M R2(L t) { L c = cosl(t), s = sinl(t); return {{{c, 0, -s}, {0, 1, 0}, {s, 0, c}}}; }
static M R3(L t) { L c = cosl(t), s = sinl(t); return {{{c, s, 0}, {-s, c, 0}, {0, 0, 1}}}; }
static M D3(L t, L w) { L c = w * cosl(t), s = w * sinl(t); return {{{-s, c, 0}, {-c, -s, 0}, {0, 0, 0}}}; }
static M C(L x, L y, L s) {
  const L z = sqrtl(1 - x * x - y * y), a = 1 / (1 + z);
  return R3(-s) * M{{{1 - a * x * x, -a * x * y, -x}, {-a * x * y, 1 - a * y * y, -y}, {x, y, z}}};
}
static double gX, gY;
static double h(double a, double b, double c) { return std::sin(a * 1.3 + b * 7.1 + c); }
int dso::xycip06a(const dso::MjdEpoch &t, double &x, double &y, double *const fa) noexcept {
  x = gX + 1e-3 * (h(t.m, t.f, 1));
  y = gY + 1e-3 * (h(t.m, t.f, 2));
  for (int i = 0; fa && i < 14; i++) fa[i] = h(t.m, t.f, 10 + i);
  return 0;
}
double dso::s06(const dso::MjdEpoch &t, double x, double y, const double *const fa) noexcept {
  double s = h(t.m, t.f, 5) + x * y - 3 * x;
  for (int i = 0; i < 14; i++) s += (i + 1) * fa[i];
  return s;
}
double dso::s06(const dso::MjdEpoch &t, double x, double y) noexcept {
  double fa[14];
  for (int i = 0; i < 14; i++) fa[i] = h(t.m, t.f, 10 + i);
  return s06(t, x, y, fa);
}
double dso::era00(const dso::MjdEpoch &u) noexcept { return 3 * h(u.m, u.f, 9); }
static void cmp(const Eigen::Matrix3d &g, const M &w, const char *what, L tol, L sc = 1) {
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      ck(std::abs(g(i, j) - w.a[i][j]) < tol * sc, what, fmt("entry (%d,%d) %.17g expected %.17g", i, j, g(i, j), (double)w.a[i][j]));
}
static void cmq(const Eigen::Quaterniond &q, const M &w, const char *what, L tol) {
  ck(std::abs(q.norm() - 1) < tol, what, fmt("norm %.17g", q.norm()));
  cmp(q.toRotationMatrix(), w, what, tol);
}
int main(int argc, char **argv) {
  start(argc, argv);
  const L K = 3.141592653589793238462643L / 648000;
  for (int q = 0; q < (thorough ? 400000 : 20000); q++) {
    double r = q % 5 == 0 ? 0 : q % 5 == 1 ? std::pow(10.0, rd(-9, -2)) : q % 5 == 2 ? 1 - std::pow(10.0, rd(-6, -1)) : rd(0, 1);
    const double a = q % 7 == 0 ? 1.5707963267948966 * int(rd(0, 4)) : rd(-3.2, 3.2);
    double x = r * std::cos(a), y = r * std::sin(a);
    if (x * x + y * y >= 1) continue;
    const double s = q % 3 ? rd(-4, 4) : rd(-1e-6, 1e-6), era = rd(-7, 7), sp = rd(-1, 1), xp = q % 2 ? rd(-2, 2) : rd(-1e-6, 1e-6), yp = q % 2 ? rd(-2, 2) : rd(-1e-6, 1e-6);
    mark(fmt("X %.17g Y %.17g s %.17g era %.17g sp %.17g xp %.17g yp %.17g", x, y, s, era, sp, xp, yp));
    const L cond = 1 / sqrtl(1 - (L)x * x - (L)y * y), tol = 1e-14L * (1 + cond);
    double d, e;
    dso::detail::xycip2spherical(x, y, d, e);
    ck(std::abs(std::sin(d) * std::cos(e) - x) < tol && std::abs(std::sin(d) * std::sin(e) - y) < tol && std::abs(std::cos(d) - sqrtl(1 - (L)x * x - (L)y * y)) < tol,
       "spherical angles", fmt("d %.17g e %.17g", d, e));
    const M c = C(x, y, s), w = R1(-yp) * R2(-xp) * R3(sp);
    cmq(Eigen::Quaterniond(dso::detail::C(x, y, s)), c, "C", tol);
    cmq(Eigen::Quaterniond(dso::detail::C_qimpl(x, y, s)), c, "C_qimpl", tol);
    cmq(dso::detail::c2i(era, s, sp, d, e, xp, yp), w * R3(era) * c, "c2i", tol);
    cmq(dso::detail::c2tirs(era, s, d, e), R3(era) * c, "c2tirs", tol);
    cmq(dso::detail::tirs2i(xp, yp, sp), w, "tirs2i", tol);
    cmq(dso::detail::gcrs2itrs_quaternion(era, s, sp, x, y, xp, yp), w * R3(era) * c, "gcrs2itrs_quaternion", tol);
    const double om = rd(-1, 1);
    cmp(dso::detail::dRdt(era, om), D3(era, om), "dRdt", 1e-14);
    // assembled
    dso::MjdEpoch t;
    t.m = 40000 + int(rd(0, 30000));
    t.f = rd(0, 1);
    dso::EopRecord E;
    E.xp() = xp / (double)K;
    E.yp() = yp / (double)K;
    E.dut() = rd(-1, 1);
    E.lod() = rd(-3e-3, 3e-3);
    E.dX() = rd(-20, 20);
    E.dY() = rd(-20, 20);
    gX = .99 * x;
    gY = .99 * y;
    double fa[14], mx, my;
    dso::xycip06a(t, mx, my, fa);
    const L cx = mx + K * E.dX(), cy = my + K * E.dY();
    if (cx * cx + cy * cy > .9999L) continue;
    const L T = 1e-12L;
    const L sl = dso::s06(t, mx, my, fa), er = dso::era00(t.tt2ut1(E.dut())), spl = K * -47e-6L * t.jcenturies_sinceJ2000();
    const M Cc = C(cx, cy, sl), W = R1(-K * E.yp()) * R2(-K * E.xp()) * R3(spl), F = W * R3(er) * Cc;
    mark(fmt("tt %.17g + %.17g model X %.17g Y %.17g eop xp %.17g yp %.17g dut %.17g lod %.17g dX %.17g dY %.17g", (double)t.m, t.f, mx, my, E.xp(), E.yp(), E.dut(), E.lod(), E.dX(), E.dY()));
    cmq(dso::c2i06a(t, E), F, "c2i06a", T);
    cmq(dso::c2i06a_bz(t, E), F, "c2i06a_bz", T);
    Eigen::Matrix3d dm;
    cmq(dso::c2i06a(t, E, dm), F, "c2i06a with derivative", T);
    const L om2 = 2 * 3.141592653589793238462643L * 1.00273781191135448L / 86400 * (1 - (L)E.lod() / 86400);
    cmp(dm, W * D3(er, om2) * Cc, "derivative", T, 7.3e-5);
    Eigen::Quaterniond q1, q2;
    const Eigen::Vector3d v = dso::c2i06a(t, E, q1, q2);
    cmq(q1, R3(er) * Cc, "GCRS to TIRS", T);
    cmq(q2, W, "TIRS to ITRS", T);
    ck(v(0) == 0 && v(1) == 0 && std::abs(v(2) - om2) < 1e-12L * om2, "rotation vector", fmt("%.17g %.17g %.17g", v(0), v(1), v(2)));
  }
  return finish();
}
