// Relativistic correction against a long double evaluation of the three terms
#include "relativity.hpp"
#include "nat.hpp"
using namespace nat;
typedef long double L;
struct V { L x, y, z; };
static V operator*(L k, V a) { return {k * a.x, k * a.y, k * a.z}; }
static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static L dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cr(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
int main(int argc, char **argv) {
  start(argc, argv);
  typedef Eigen::Matrix<double, 6, 1> E6;
  for (int q = 0; q < (thorough ? 200000 : 10000); q++) {
    E6 s, u;
    const double sr = std::pow(10.0, rd(6.5, 9)), ur = std::pow(10.0, rd(8, 12));
    for (int i = 0; i < 3; i++) {
      s(i) = sr * rv();
      s(i + 3) = 8e3 * rv();
      u(i) = ur * rv();
      u(i + 3) = 3e4 * rv();
    }
    if (q % 11 == 0) s.tail<3>() = 1e-4 * s.head<3>();
    if (q % 13 == 0) s(0) = s(1) = 0;
    if (s.head<3>().norm() < 1e3 || u.head<3>().norm() < 1e3) continue;
    double GMe = ::iers2010::GMe, GMs = ::iers2010::GMs, J = ::iers2010::Je, c = ::iers2010::C, be = 1, ga = 1;
    const bool d = q % 2;
    if (!d) { GMe *= rd(0.5, 2); GMs *= q % 4 ? rd(0.5, 2) : 1e6; J *= q % 6 ? rv() : 1e6; c *= rd(0.5, 2); be = rv(); ga = rv(); }
    mark(fmt("sat %.17g %.17g %.17g %.17g %.17g %.17g sun %.17g %.17g %.17g %.17g %.17g %.17g par %.17g %.17g %.17g %.17g %.17g %.17g", s(0), s(1), s(2), s(3), s(4), s(5), u(0), u(1), u(2), u(3), u(4), u(5), GMe, GMs, J, c, be, ga));
    const Eigen::Matrix<double, 3, 1> a = d ? dso::iers2010_relativistic_acceleration(s, u) : dso::iers2010_relativistic_acceleration(s, u, GMe, GMs, J, c, be, ga);
    const V r = {s(0), s(1), s(2)}, v = {s(3), s(4), s(5)}, R = {-u(0), -u(1), -u(2)}, W = {-u(3), -u(4), -u(5)};
    const L n = std::sqrt(dot(r, r)), N = std::sqrt(dot(R, R)), k = GMe / ((L)c * c * n * n * n);
    const V t1 = k * ((2 * (be + ga) * GMe / n - ga * dot(v, v)) * r + 2 * (1 + ga) * dot(r, v) * v);
    const V j = {0, 0, J};
    const V t2 = (1 + ga) * k * ((3 / (n * n)) * dot(r, j) * cr(r, v) + cr(v, j));
    const V t3 = (1 + 2 * ga) * cr(cr(W, (-GMs / ((L)c * c * N * N * N)) * R), v);
    const V w = t1 + t2 + t3;
    const L mag = k * (2 * (std::abs(be) + std::abs(ga)) * GMe + std::abs(ga) * dot(v, v) * n + 2 * (1 + std::abs(ga)) * n * dot(v, v)) +
                  std::abs(1 + ga) * k * 4 * std::sqrt(dot(v, v)) * std::abs(J) + std::abs(1 + 2 * ga) * GMs / ((L)c * c * N * N) * std::sqrt(dot(W, W) * dot(v, v));
    ck(std::abs(a(0) - w.x) < 1e-12L * mag && std::abs(a(1) - w.y) < 1e-12L * mag && std::abs(a(2) - w.z) < 1e-12L * mag, "relativistic acceleration",
       fmt("got %.17g %.17g %.17g expected %.17g %.17g %.17g", a(0), a(1), a(2), (double)w.x, (double)w.y, (double)w.z));
  }
  return finish();
}
