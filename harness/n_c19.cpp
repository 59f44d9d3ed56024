// EOP regularisation: every record changed by the zonal tides at its epoch, nothing else; there and back is the identity
#define VC_MJD_REAL
#include <cstdio>
#include "nat.hpp"
#include "eop.hpp"
#include "fundarg.hpp"
using namespace nat;
typedef dso::EopSeries S;
typedef dso::EopRecord R;
static double at(const R &r, int k) { double v; memcpy(&v, (const char *)&r + 8 * k, 8); return v; }
int main(int argc, char **argv) {
  start(argc, argv);
  static_assert(sizeof(R) == 88, "");
  for (int q = 0; q < (thorough ? 20000 : 1500); q++) {
    S s;
    std::vector<R> v;
    const int n = q < 3 ? q : ri(1, 25);
    double t = ri(40000, 60000);
    for (int i = 0; i < n; i++, t += ri(1, 8) / 4.) {
      R r;
      r.t() = dso::MjdEpoch(int(std::floor(t)), t - std::floor(t));
      r.xp() = rv(); r.yp() = rv(); r.dut() = rv(); r.lod() = rv(); r.dX() = rv(); r.dY() = rv(); r.dat() = 37; r.xp_rate() = rv(); r.yp_rate() = rv();
      s.push_back(r);
      v.push_back(r);
    }
    const int sign = ri(0, 1) ? 1 : -1;
    const std::string how = fmt("n=%d first=%.9g %s", n, n ? v[0].t().m + v[0].t().f : 0., sign > 0 ? "deregularize" : "regularize");
    mark(how);
    if (sign > 0) s.deregularize(); else s.regularize();
    const auto &w = s.give_me_the_vector();
    if ((int)w.size() != n) fail("number of records", how);
    for (int i = 0; i < n; i++) {
      double f[5], u, l, o;
      dso::fundarg(v[i].t(), f);
      dso::deop_zonal_tide(f, u, l, o);
      for (int k = 0; k < 11; k++) {
        const double z = k == 4 ? sign * u * 1e-6 : k == 5 ? sign * l * 1e-6 : 0;
        if (z == 0 ? at(w[i], k) != at(v[i], k) : !(std::fabs(at(w[i], k) - (at(v[i], k) + z)) < 1e-14))
          fail(k == 4 ? "UT1 corrected by the zonal tides" : k == 5 ? "LOD corrected by the zonal tides" : "field not changed", how + fmt(" record %d field %d", i, k));
      }
    }
    if (sign > 0) s.regularize(); else s.deregularize();
    for (int i = 0; i < n; i++)
      for (int k = 0; k < 11; k++)
        if (!(std::fabs(at(s.give_me_the_vector()[i], k) - at(v[i], k)) < 1e-14)) fail("there and back restores the record", how + fmt(" record %d field %d", i, k));
  }
  return finish();
}
