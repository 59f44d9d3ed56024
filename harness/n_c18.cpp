// EOP interpolation: real code against the Lagrange formula, over histories of insertions, queries, copies and clears
#define VC_MJD_REAL
#include <cstdio>
#include <cassert>
#include "nat.hpp"
#include "eop.hpp"
#include <memory>
using namespace nat;
typedef dso::EopSeries S;
typedef dso::EopRecord R;
typedef dso::EopSeries::EopInterpolationResult Q;
static R rec(double t) {
  R r;
  const double m = std::floor(t);
  r.t() = dso::MjdEpoch(int(m), t - m);
  r.xp() = rv(); r.yp() = rv(); r.dut() = rv(); r.lod() = rv(); r.dX() = rv(); r.dY() = rv(); r.xp_rate() = rv(); r.yp_rate() = rv();
  r.dat() = dso::dat(dso::modified_julian_day(r.t().tt2utc().imjd()));
  return r;
}
static double day(const dso::MjdEpoch &e) { return (e.m - 57750) + e.f; }
static double get(const R &r, int k) {
  switch (k) {
  case 0: return r.xp();
  case 1: return r.yp();
  case 2: return r.dut() - r.dat();
  case 3: return r.lod();
  case 4: return r.dX();
  default: return r.dY();
  }
}
static double got(const R &r, int k, const dso::MjdEpoch &t) {
  return k == 2 ? r.dut() - dso::dat(dso::modified_julian_day(t.tt2utc().imjd())) : get(r, k);
}
static bool near(double a, double b, double s) { return std::fabs(a - b) <= 1e-9 * (1 + s); }
static void query(const S &s, const std::vector<R> &v, const dso::MjdEpoch &t, int degree, const std::string &how) {
  R o;
  o.dat() = 0;
  double d1 = 0;
  const Q q = s.interpolate(t, o, degree);
  const Q q1 = s.approx_dut1(t, d1);
  const int n = v.size();
  int p = 0;
  while (p < n && !(t < v[p].t())) p++;
  if (p == 0 || p == n) {
    const Q w = p == 0 ? Q::OutOfBoundsPrior : Q::OutOfBoundsLater;
    if (q != w || q1 != w) fail("outside the series is flagged", how);
    if (!n) return;
    const R &x = v[p == 0 ? 0 : n - 1];
    for (int k = 0; k < 6; k++)
      if (k == 2 ? o.dut() != x.dut() : get(o, k) != get(x, k)) fail("outside the series the nearest record is returned", how);
    if (o.xp_rate() != x.xp_rate() || o.yp_rate() != x.yp_rate()) fail("outside the series the nearest record is returned", how);
    if (d1 != x.dut()) fail("outside the series the nearest UT1 is returned", how);
    return;
  }
  if (o.t() != t) fail("result has the epoch asked for", how);
  int h = std::min((degree + 1) / 2, std::min(p, n - p));
  const Q w = h == 1 ? Q::Linear : 2 * h == degree + 1 ? Q::PolyDegreeRequested : Q::PolyDegreeDescreased;
  if (q != w) fail("status tells the degree used", how);
  if (q1 != Q::Linear) fail("status of the linear interpolation", how);
  for (int k = 0; k < 7; k++) {
    const int hh = k == 6 ? 1 : h, kk = k == 6 ? 2 : k;
    long double z = 0, sc = 0;
    for (int i = p - hh; i < p + hh; i++) {
      long double f = 1;
      for (int j = p - hh; j < p + hh; j++)
        if (j != i) f *= (day(t) - day(v[j].t())) / (day(v[i].t()) - day(v[j].t()));
      z += f * get(v[i], kk);
      sc += std::fabs((double)f) * 40;
    }
    const double g = k == 6 ? d1 - dso::dat(dso::modified_julian_day(t.tt2utc().imjd())) : got(o, kk, t);
    if (!near(g, z, sc)) fail(k == 6 ? "linear interpolation of UT1" : "value is the interpolating polynomial", how + fmt(" field %d: %.12g, %.12g", kk, g, (double)z));
  }
  if (t == v[p - 1].t())
    for (int k = 0; k < 6; k++)
      if (!near(got(o, k, t), get(v[p - 1], k), 100)) fail("an epoch at a record returns that record's values", how + fmt(" field %d", k));
}
static void run(int cas) {
  auto s = std::make_unique<S>();
  std::vector<R> v;
  double last = 57740 + ri(0, 10);
  const int steps = ri(3, 40);
  const bool even = ri(0, 1);
  std::string how;
  for (int k = 0; k < steps; k++) {
    switch (ri(0, 9)) {
    case 0: case 1: case 2: case 3: {
      last += even ? 1. : ri(1, 12) / 4.;
      const R r = rec(last);
      s->push_back(r);
      v.push_back(r);
      how += "p";
      break;
    }
    case 4:
      if (ri(0, 4) == 0) {
        s->clear();
        v.clear();
        how += "c";
      }
      break;
    case 5: {
      auto c = std::make_unique<S>(*s);
      if (ri(0, 1)) s = std::move(c);
      how += "=";
      break;
    }
    case 6: {
      S c;
      c = *s;
      s = std::make_unique<S>(std::move(c));
      how += "m";
      break;
    }
    default: {
      double t = last - ri(-8, 4 * 40) / 8.;
      if (!v.empty() && ri(0, 2) == 0) t = day(v[ri(0, v.size() - 1)].t()) + 57750;
      if (!v.empty() && ri(0, 9) == 0) t = day(v[0].t()) + 57750 - .5;
      const int d = ri(1, 9);
      how += fmt("q(%g,%d)", t, d);
      mark(how);
      query(*s, v, dso::MjdEpoch(int(std::floor(t)), t - std::floor(t)), d, how);
    }
    }
  }
  if ((int)v.size() != s->num_entries()) fail("number of records", how);
}
int main(int argc, char **argv) {
  start(argc, argv);
  for (int k = 0; k < (thorough ? 60000 : 4000); k++) run(k);
  return finish();
}
