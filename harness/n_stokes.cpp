// Random operation histories on StokesCoeffs against a plain shadow model.
// PART 5: construction/size/copy histories; 6: += scale clear; 7: packing.
#include "stokes_coefficients.hpp"
#include "nat.hpp"
#include <memory>
#include <stdexcept>
using namespace nat;
#ifndef PART
#define PART 5
#endif
typedef dso::StokesCoeffs T;
struct Sh {
  int d, o;
  double gm, re;
  bool nrm;
  std::map<std::pair<int, int>, std::pair<double, double>> v; // known cells
};
static std::vector<std::unique_ptr<T>> m;
static std::vector<Sh> s;
static std::vector<bool> alive; // not moved-from
static std::string hist;
static void log(const std::string &x) {
  hist += x + ";";
  if (hist.size() > 360) hist = ".." + hist.substr(hist.size() - 330);
  mark(hist);
}
static void set(int a) {
  for (int n = 0; n <= s[a].d; n++)
    for (int k = 0; k <= n; k++) {
      double x = rv(), y = rv();
      m[a]->C(n, k) = x;
      m[a]->S(n, k) = y;
      s[a].v[{n, k}] = {x, y};
    }
}
static void trim(Sh &x) { // forget what lies outside the degree
  for (auto i = x.v.begin(); i != x.v.end();) i->first.first > x.d ? i = x.v.erase(i) : ++i;
}
static void same(int a, const char *what, double tol = 0) {
  const T &x = *m[a];
  const Sh &y = s[a];
  std::string w(what);
  if (x.max_degree() != y.d || x.max_order() != y.o) return fail(w + " degree/order", fmt("#%d has %d/%d, expected %d/%d", a, x.max_degree(), x.max_order(), y.d, y.o));
  if (x.GM() != y.gm || x.Re() != y.re || x.normalized() != y.nrm) return fail(w + " GM/Re/normalized", fmt("#%d", a));
  for (auto &c : y.v) {
    int n = c.first.first, k = c.first.second;
    double C = x.C(n, k), S = x.S(n, k);
    if (!(tol ? close(C, c.second.first, tol) : C == c.second.first)) return fail(w + " C", fmt("#%d C(%d,%d)=%.17g expected %.17g", a, n, k, C, c.second.first));
    if (!(tol ? close(S, c.second.second, tol) : S == c.second.second)) return fail(w + " S", fmt("#%d S(%d,%d)=%.17g expected %.17g", a, n, k, S, c.second.second));
  }
}
static void dims(int &d, int &o) {
  d = ri(0, 9) ? ri(0, 7) : ri(8, 40);
  o = ri(0, 2) ? ri(0, d) : d;
}
static int add() {
  int d, o;
  dims(d, o);
  double gm = rd(1, 9), re = rd(1, 9);
  int k = ri(0, 6);
  if (k == 0) {
    m.emplace_back(new T());
    s.push_back(Sh{0, 0, iers2010::GMe, iers2010::Re, true, {}});
    log("dflt");
  } else if (k == 1) {
    m.emplace_back(new T(d));
    s.push_back(Sh{d, d, iers2010::GMe, iers2010::Re, true, {}});
    log(fmt("T(%d)", d));
  } else {
    m.emplace_back(new T(d, o, gm, re));
    s.push_back(Sh{d, o, gm, re, true, {}});
    log(fmt("T(%d,%d)", d, o));
    if (ri(0, 4) == 0) m.back()->normalized() = s.back().nrm = false;
  }
  alive.push_back(true);
  set(m.size() - 1);
  same(m.size() - 1, "constructor");
  return m.size() - 1;
}
static void histories(int steps) {
  m.clear(), s.clear(), alive.clear(), hist.clear();
  add(), add();
  for (int t = 0; t < steps; t++) {
    int a = ri(0, m.size() - 1), b = ri(0, m.size() - 1), op = ri(0, PART == 5 ? 8 : 11);
    int d, o;
    dims(d, o);
    if (!alive[a]) { // only assign/resize to it
      m[a]->resize(d, o);
      s[a].d = d, s[a].o = o;
      s[a].v.clear();
      alive[a] = true;
      log(fmt("#%d.resize(%d,%d)", a, d, o));
      set(a);
      same(a, "resize of moved-from");
      continue;
    }
    if (!alive[b]) continue;
    switch (op) {
    case 0:
      if (m.size() < 6) add();
      break;
    case 1:
      log(fmt("#%d.resize(%d,%d)", a, d, o));
      m[a]->resize(d, o);
      s[a].d = d, s[a].o = o, s[a].v.clear();
      set(a);
      same(a, "resize");
      break;
    case 2: {
      log(fmt("#%d.cresize(%d,%d)", a, d, o));
      m[a]->cresize(d, o);
      int od = s[a].d;
      s[a].d = d, s[a].o = o;
      trim(s[a]);
      same(a, "copy-resize");
      if (d > od)
        for (int n = od + 1; n <= d; n++)
          for (int k = 0; k <= n; k++) {
            double x = rv(), y = rv();
            m[a]->C(n, k) = x, m[a]->S(n, k) = y;
            s[a].v[{n, k}] = {x, y};
          }
      same(a, "copy-resize+fill");
      break;
    }
    case 3: {
      if (ri(0, 3)) d = ri(-1, s[a].d + 1), o = ri(-1, s[a].o + 1);
      if (d < 0 || o < 0) break;
      bool ok = o <= d && d <= s[a].d && o <= s[a].o;
      log(fmt("#%d.shrink(%d,%d)", a, d, o));
      int rc = m[a]->shrink_dimensions(d, o);
      if ((rc == 0) != ok) fail("shrink decision", fmt("rc=%d", rc));
      if (ok) s[a].d = d, s[a].o = o, trim(s[a]);
      same(a, "shrink");
      break;
    }
    case 4:
      log(fmt("#%d=#%d", a, b));
      *m[a] = *m[b];
      s[a] = s[b];
      same(a, "copy-assign"), same(b, "copy-assign source");
      break;
    case 5:
      log(fmt("#%d=move#%d", a, b));
      *m[a] = std::move(*m[b]);
      if (a != b) s[a] = s[b], alive[b] = false;
      same(a, "move-assign");
      break;
    case 6:
      log(fmt("swap#%d,#%d", a, b));
      if (ri(0, 1)) m[a]->swap(*m[b]);
      else dso::swap(*m[a], *m[b]);
      if (a != b) std::swap(s[a], s[b]);
      same(a, "swap"), same(b, "swap");
      break;
    case 7: {
      log(fmt("copy#%d", a));
      T c(*m[a]);
      m[a]->C(0, 0) += 1;
      double k = c.C(0, 0), q = m[a]->C(0, 0);
      if (s[a].v.count({0, 0})) ck(k == s[a].v[{0, 0}].first, "copy shares storage");
      m[a]->C(0, 0) = c.C(0, 0);
      m[a].reset(new T(std::move(c)));
      same(a, "copy/move constructor");
      break;
    }
    case 8:
      set(a);
      same(a, "set");
      if (s[a].d >= 2) ck(m[a]->J2() == -s[a].v[{2, 0}].first, "J2");
      break;
    case 9: {
      double f = rv();
      log(fmt("#%d.scale", a));
      m[a]->scale(f);
      for (auto &c : s[a].v) c.second.first *= f, c.second.second *= f;
      same(a, "scale", 1e-15);
      set(a);
      break;
    }
    case 10:
      log(fmt("#%d.clear", a));
      m[a]->clear();
      for (auto &c : s[a].v) c.second = {0, 0};
      same(a, "clear");
      set(a);
      break;
    case 11: {
      log(fmt("#%d+=#%d", a, b));
      bool ok = s[b].d <= s[a].d && s[b].o <= s[a].o, th = false;
      Sh sb = s[b];
      try {
        *m[a] += *m[b];
      } catch (std::runtime_error &) {
        th = true;
      }
      if (th == ok) fail("+= decision", fmt("thrown=%d", th));
      if (ok)
        for (auto &c : sb.v)
          if (c.first.second <= sb.o) s[a].v[c.first].first += c.second.first, s[a].v[c.first].second += c.second.second;
      same(a, "+="), same(b, "+= operand");
      break;
    }
    }
  }
  for (size_t i = 0; i < m.size(); i++)
    if (alive[i]) same(i, "end");
}
static void packing() {
  int d, o;
  dims(d, o);
  mark(fmt("pack %d %d", d, o));
  m.clear(), s.clear(), alive.clear();
  m.emplace_back(new T(d, o));
  s.push_back(Sh{d, o, iers2010::GMe, iers2010::Re, true, {}});
  set(0);
  for (int n = 0; n <= d; n++) m[0]->S(n, 0) = 0, s[0].v[{n, 0}].second = 0;
  if (ri(0, 2) == 0) { // packing a shrunk set
    int d2 = ri(0, d), o2 = ri(0, d2 < o ? d2 : o);
    m[0]->shrink_dimensions(d2, o2);
    s[0].d = d = d2, s[0].o = o = o2;
    trim(s[0]);
  }
  Eigen::MatrixXd p = m[0]->to_anm();
  same(0, "pack leaves the set alone");
  if (p.rows() != d + 1 || p.cols() != d + 1) return fail("packed size", fmt("%ldx%ld for degree %d", p.rows(), p.cols(), d));
  for (int n = 0; n <= d; n++)
    for (int k = 0; k <= n; k++) {
      if (!bits(p(n, k), s[0].v[{n, k}].first)) fail("packed C", fmt("(%d,%d) degree %d", n, k, d));
      if (k && !bits(p(k - 1, n), s[0].v[{n, k}].second)) fail("packed S", fmt("(%d,%d) degree %d", n, k, d));
    }
  Eigen::MatrixXd q(d + 1, d + 1);
  for (int i = 0; i <= d; i++)
    for (int j = 0; j <= d; j++) q(i, j) = rv();
  for (int rep = 0; rep < 2; rep++) {
    int mo = rep ? ri(0, d) : -1;
    T u = rep ? T::from_anm(q, mo) : T::from_anm(q);
    if (u.max_degree() != d || u.max_order() != (rep ? mo : d)) fail("unpacked degree/order", fmt("%d %d", u.max_degree(), u.max_order()));
    for (int n = 0; n <= d; n++)
      for (int k = 0; k <= n; k++) {
        if (!bits(u.C(n, k), q(n, k))) fail("unpacked C", fmt("(%d,%d) degree %d", n, k, d));
        double e = k ? q(k - 1, n) : 0e0;
        if (!(u.S(n, k) == e)) fail("unpacked S", fmt("(%d,%d) degree %d: %.17g expected %.17g", n, k, d, u.S(n, k), e));
      }
    Eigen::MatrixXd r = u.to_anm();
    if (r.rows() != d + 1 || !(r == q)) fail("pack(unpack)", fmt("degree %d", d));
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  int N = thorough ? 20000 : 600;
#if PART == 7
  for (int i = 0; i < 3 * N; i++) packing();
#else
  for (int i = 0; i < N; i++) histories(ri(3, 40));
#endif
  return finish();
}
