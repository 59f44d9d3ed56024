// Ocean and atmospheric tides: superposition of the waves of an atlas
#include "ocean_tide_inc.hpp"
#include "nat.hpp"
using namespace nat;
typedef long double L;
static double gmst0(const dso::MjdEpoch &t, const dso::MjdEpoch &u) { return std::fmod(1.75 + 6.3003 * (u.f + (double(u.m) - 58000)) + 0.01 * t.f, 6.283185307179586); }
double dso::gmst(const dso::MjdEpoch &t, const dso::MjdEpoch &u) noexcept { return gmst0(t, u); }
struct Wave {
  int d, o, k[6];
  double pi;
  std::vector<double> v[4]; // cos C, cos S, sin C, sin S by (n, m)
  double at(int q, int n, int m) const { return v[q][n * (d + 1) + m]; }
};
static Wave wave(int d, int o) {
  Wave w;
  w.d = d, w.o = o;
  for (int i = 0; i < 6; i++) w.k[i] = ri(-4, 4);
  w.pi = ri(-1, 2);
  for (auto &x : w.v) {
    x.assign((d + 1) * (d + 1), 0);
    for (auto &y : x) y = rv();
  }
  return w;
}
static dso::TidalConstituent make(const Wave &w) {
  dso::TidalConstituent t(dso::TidalWave(dso::DoodsonConstituent(w.k[0], w.k[1], w.k[2], w.k[3], w.k[4], w.k[5], w.pi), 1., 1., "x"), w.d, w.o);
  t.stokes_cos().Cnm().fill_with(1e6);        // beyond the wave's order: of no meaning
  t.stokes_cos().Snm().fill_with(1e6);
  t.stokes_sin().Cnm().fill_with(1e6);
  t.stokes_sin().Snm().fill_with(1e6);
  for (int m = 0; m <= w.o; m++)
    for (int n = m; n <= w.d; n++) {
      t.stokes_cos().C(n, m) = w.at(0, n, m);
      t.stokes_cos().S(n, m) = w.at(1, n, m);
      t.stokes_sin().C(n, m) = w.at(2, n, m);
      t.stokes_sin().S(n, m) = w.at(3, n, m);
    }
  return t;
}
struct Time {
  dso::MjdEpoch t, u;
  double f[5];
};
static Time when() {
  Time x;
  x.t = dso::MjdEpoch(ri(50000, 62000), rd(0, 1));
  x.u = dso::MjdEpoch(x.t.m, x.t.f - rd(0, 1e-3));
  for (auto &y : x.f) y = rd(-7, 7);
  return x;
}
static L theta(const int *k, const Time &t) {
  const L s = (L)t.f[2] + t.f[4], h = s - t.f[3], p = s - t.f[0], N = -(L)t.f[4], ps = s - t.f[3] - t.f[1], tau = gmst0(t.t, t.u) + 3.14159265358979323846L - s;
  return k[0] * tau + k[1] * s + k[2] * h + k[3] * p + k[4] * N + k[5] * ps;
}
static void expect(const char *what, const dso::StokesCoeffs &r, const std::vector<Wave> &w, const std::vector<L> &fc, const std::vector<L> &fs) {
  int D = 0, O = 0;
  for (auto &x : w) D = std::max(D, x.d), O = std::max(O, x.o);
  ck(r.max_degree() == D && r.max_order() == O, what, fmt("degree %d order %d, expected %d %d", r.max_degree(), r.max_order(), D, O));
  if (r.max_degree() != D) return;
  for (int m = 0; m <= O; m++)
    for (int n = m; n <= D; n++) {
      L c = 0, s = 0;
      for (size_t i = 0; i < w.size(); i++)
        if (n <= w[i].d && m <= w[i].o) {
          c += fc[i] * w[i].at(0, n, m) + fs[i] * w[i].at(2, n, m);
          s += fc[i] * w[i].at(1, n, m) + fs[i] * w[i].at(3, n, m);
        }
      ck(std::abs(r.C(n, m) - c) < 1e-11L * (1 + w.size()) && std::abs(r.S(n, m) - s) < 1e-11L * (1 + w.size()), what,
         fmt("C,S(%d,%d) got %.15g %.15g expected %.15g %.15g", n, m, r.C(n, m), r.S(n, m), (double)c, (double)s));
    }
}
static std::vector<L> cosines(const std::vector<Wave> &w, const Time &t, double q, bool sine) {
  std::vector<L> r;
  for (auto &x : w) {
    const L a = theta(x.k, t) + q * x.pi * 1.57079632679489661923L;
    r.push_back(sine ? std::sin(a) : std::cos(a));
  }
  return r;
}
int main(int argc, char **argv) {
  start(argc, argv);
  const int rep = thorough ? 400 : 60;
  for (int it = 0; it < rep; it++) {
    const int n = it < 4 ? it : ri(0, 7), mixed = it % 3;
    const int D = ri(1, 9), O = ri(0, D);
    std::vector<Wave> w;
    dso::TideAtlas a;
    for (int i = 0; i < n; i++) {
      const int d = mixed ? ri(1, 9) : D;
      w.push_back(wave(d, mixed ? ri(0, d) : O));
      a.waves().push_back(make(w.back()));
    }
    if (!n) w.clear();
    mark(fmt("it=%d waves=%d mixed=%d deg=%d order=%d", it, n, mixed, D, O));
    const Time t = when(), t2 = when();
    {
      dso::OceanTide o(a, "model");
      o.stokes_coeffs(t2.t, t2.u, t2.f);
      ck(o.stokes_coeffs(t.t, t.u, t.f) == 0, "ocean tide status", "");
      if (n) expect("ocean tide", o.stokes_coeffs(), w, cosines(w, t, 0, false), cosines(w, t, 0, true));
      dso::OceanTide c(o), e(a);
      e = o;
      c.stokes_coeffs(t2.t, t2.u, t2.f);
      e.stokes_coeffs(t2.t, t2.u, t2.f);
      if (n) expect("copied ocean tide", c.stokes_coeffs(), w, cosines(w, t2, 0, false), cosines(w, t2, 0, true));
      if (n) expect("assigned ocean tide", e.stokes_coeffs(), w, cosines(w, t2, 0, false), cosines(w, t2, 0, true));
    }
    {
      dso::AtmosphericTide o(a);
      o.stokes_coeffs(t2.t, t2.u, t2.f);
      ck(o.stokes_coeffs(t.t, t.u, t.f) == 0, "atmospheric tide status", "");
      if (n) expect("atmospheric tide", o.stokes_coeffs(), w, cosines(w, t, 1, false), cosines(w, t, 1, true));
      // one wave more, from a product file
      Wave x = wave(ri(1, 9), 0);
      x.o = ri(0, x.d);
      dso::TidalConstituent y = make(x);
      const dso::TidalWave yw = y.wave();
      dso::Aod1bIn::vc_cos = &y.stokes_cos();
      dso::Aod1bIn::vc_sin = &y.stokes_sin();
      dso::Aod1bIn::vc_wave = &yw;
      ck(o.append_wave("product", x.d, x.o) == 0, "append a wave", "");
      std::vector<Wave> w1 = w;
      w1.push_back(x);
      o.stokes_coeffs(t.t, t.u, t.f);
      expect("atmospheric tide after appending a wave", o.stokes_coeffs(), w1, cosines(w1, t, 1, false), cosines(w1, t, 1, true));
    }
    if (n) {    // admittance: k major waves (those of the atlas), q waves in all
      const int q = n + ri(0, 5);
      Eigen::Matrix<int, Eigen::Dynamic, 6> dd(q, 6);
      Eigen::MatrixXd A(n, q);
      std::vector<L> fc(n, 0), fs(n, 0);
      for (int j = 0; j < q; j++) {
        for (int i = 0; i < 6; i++) dd(j, i) = ri(-4, 4);
        for (int i = 0; i < n; i++) A(i, j) = ri(0, 2) ? rv() : 0;
      }
      auto fac = [&](const Time &z) {
        for (int i = 0; i < n; i++) {
          fc[i] = fs[i] = 0;
          for (int j = 0; j < q; j++) {
            const int k[6] = {dd(j, 0), dd(j, 1), dd(j, 2), dd(j, 3), dd(j, 4), dd(j, 5)};
            fc[i] += A(i, j) * std::cos(theta(k, z));
            fs[i] += A(i, j) * std::sin(theta(k, z));
          }
        }
      };
      const dso::GroopsTideModel g(dd, A);
      dso::OceanTide o(a, g, "model"), plain(a);
      o.stokes_coeffs(t.t, t.u, t.f);
      fac(t);
      expect("ocean tide with admittance", o.stokes_coeffs(), w, fc, fs);
      plain.set_groops_admittance(g);
      plain.stokes_coeffs(t.t, t.u, t.f);
      expect("ocean tide with admittance set later", plain.stokes_coeffs(), w, fc, fs);
      dso::OceanTide c(o), e(a), m(std::move(c));
      e = m;
      e.stokes_coeffs(t2.t, t2.u, t2.f);
      fac(t2);
      expect("assigned ocean tide with admittance", e.stokes_coeffs(), w, fc, fs);
      dso::OceanTide f(a);
      f = std::move(e);
      f.stokes_coeffs(t.t, t.u, t.f);
      fac(t);
      expect("moved ocean tide with admittance", f.stokes_coeffs(), w, fc, fs);
      f = dso::OceanTide(a);                  // back to a model without admittance
      f.stokes_coeffs(t.t, t.u, t.f);
      expect("ocean tide without admittance after one with it", f.stokes_coeffs(), w, cosines(w, t, 0, false), cosines(w, t, 0, true));
    }
  }
  return finish();
}
