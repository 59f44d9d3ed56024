// Random operation histories on CoeffMatrix2D against a plain shadow model.
// PART 2: memory only (sanitizers, exclusive ownership); 3: values of copy/move/swap/resize/fill; 4: expressions.
#include "coeff_matrix_2d.hpp"
#include "nat.hpp"
#include <memory>
using namespace nat;
using dso::MatrixStorageType;
#ifndef PART
#define PART 3
#endif
enum { RW, CW, TR, LR, LC };
static bool stored(int L, int r, int c, int i, int j) {
  if (i < 0 || j < 0 || i >= r || j >= c) return false;
  return L == RW || L == CW || j <= i;
}
struct Sh { // shadow: cells by (i,j), unknown = no entry
  int r, c;
  std::map<std::pair<int, int>, double> v;
};
template <MatrixStorageType S> struct Lay {
  typedef dso::CoeffMatrix2D<S> M;
  int L;
  const char *nm;
  bool sq() const { return L == LR || L == LC; }
  std::vector<std::unique_ptr<M>> m;
  std::vector<Sh> s;
  std::string hist;
  void log(const std::string &x) {
    hist += x + ";";
    if (hist.size() > 360) hist = ".." + hist.substr(hist.size() - 330);
    mark(std::string(nm) + " " + hist);
  }
  void set(int a) { // give every stored element a value
    for (int i = 0; i < s[a].r; i++)
      for (int j = 0; j < s[a].c; j++)
        if (stored(L, s[a].r, s[a].c, i, j)) {
          double x = rv();
          (*m[a])(i, j) = x;
          s[a].v[{i, j}] = x;
        }
  }
  void dims(int &r, int &c) {
    int k = ri(0, 19);
    if (k == 0) r = c = 0;
    else if (k < 16) r = ri(1, 7), c = ri(1, 7);
    else r = ri(1, 40), c = ri(1, 40);
    if (sq()) c = r;
  }
  int add(int r, int c) {
    m.emplace_back(new M(r, c));
    s.push_back(Sh{r, c, {}});
    log(fmt("new#%zu(%d,%d)", m.size() - 1, r, c));
    set(m.size() - 1);
    return m.size() - 1;
  }
  void same(int a, const char *what) {
    const M &x = *m[a];
    const Sh &y = s[a];
    if (x.rows() != y.r || x.cols() != y.c) {
      fail(std::string(what) + " dimensions", fmt("%s #%d is %dx%d, expected %dx%d", nm, a, x.rows(), x.cols(), y.r, y.c));
      // keep going with what is there
      s[a].r = x.rows(), s[a].c = x.cols();
      s[a].v.clear();
      return;
    }
    for (auto &kv : y.v) {
      double g = x(kv.first.first, kv.first.second);
      if (!bits(g, kv.second)) {
        fail(std::string(what) + " value", fmt("%s #%d (%d,%d)=%.17g expected %.17g", nm, a, kv.first.first, kv.first.second, g, kv.second));
        return;
      }
    }
  }
  void own() {
    for (size_t a = 0; a < m.size(); a++)
      for (size_t b = 0; b < a; b++)
        if (m[a]->data() && m[a]->data() == m[b]->data() && m[a]->num_elements() && m[b]->num_elements())
          fail("shared buffer", fmt("%s #%zu and #%zu share a buffer", nm, a, b));
  }
  void touch() {
    double q = 0;
    for (auto &x : m)
      for (size_t k = 0; k < (size_t)x->num_elements(); k++) {
        q += x->data()[k];
        x->data()[k] = 1.5 * k;
      }
    volatile double z = q;
    (void)z;
    for (auto &t : s) t.v.clear();
  }
  void lifecycle() {
    m.clear();
    s.clear();
    hist.clear();
    int r, c;
    for (int k = 0; k < 3; k++) {
      dims(r, c);
      add(r, c);
    }
    int n = ri(3, 14);
    for (int q = 0; q < n && !m.empty(); q++) {
      int a = ri(0, m.size() - 1), b = ri(0, m.size() - 1);
      switch (ri(0, 12)) {
      case 0:
        log(fmt("cctor(#%d)", a));
        m.emplace_back(new M(*m[a]));
        s.push_back(Sh(s[a]));
        break;
      case 1:
        log(fmt("mctor(#%d)", a));
        m.emplace_back(new M(std::move(*m[a])));
        s.push_back(s[a]);
        // the moved-from matrix stays usable: destroy it, or assign over it
        if (ri(0, 1)) {
          log(fmt("destroy#%d", a));
          m.erase(m.begin() + a);
          s.erase(s.begin() + a);
        } else {
          dims(r, c);
          log(fmt("#%d=%dx%d", a, r, c));
          M t(r, c);
          *m[a] = t;
          s[a] = Sh{r, c, {}};
          set(a);
        }
        break;
      case 2:
        log(fmt("#%d=#%d", a, b));
        *m[a] = *m[b];
        s[a] = Sh(s[b]);
        break;
      case 3:
        log(fmt("#%d=move#%d", a, b));
        *m[a] = std::move(*m[b]);
        if (a != b) {
          s[a] = s[b];
          log(fmt("#%d=copy of #%d", b, a));
          if (ri(0, 1)) {
            *m[b] = *m[a];
          } else {
            m.erase(m.begin() + b);
            s.erase(s.begin() + b);
          }
        }
        break;
      case 4:
        log(fmt("#%d.swap#%d", a, b));
        if (ri(0, 1)) m[a]->swap(*m[b]);
        else swap(*m[a], *m[b]);
        std::swap(s[a], s[b]);
        break;
      case 5:
        dims(r, c);
        log(fmt("#%d.resize(%d,%d)", a, r, c));
        m[a]->resize(r, c);
        s[a] = Sh{r, c, {}};
        if (PART == 3) same(a, "resize");
        set(a);
        break;
      case 6:
      case 7:
      case 8: {
        dims(r, c);
        if (ri(0, 2) && s[a].r > 0 && s[a].c > 0) { // near the old shape
          r = std::max<int>(1, s[a].r + ri(-1, 1));
          c = sq() ? r : std::max<int>(1, s[a].c + ri(-1, 1));
        }
        log(fmt("#%d(%dx%d).cresize(%d,%d)", a, s[a].r, s[a].c, r, c));
        m[a]->cresize(r, c);
        Sh t{r, c, {}};
        for (auto &kv : s[a].v)
          if (stored(L, r, c, kv.first.first, kv.first.second)) t.v.insert(kv);
        s[a] = t;
        if (PART == 3) same(a, "cresize");
        set(a);
        break;
      }
      case 9: {
        double x = rv();
        log(fmt("#%d.fill", a));
        m[a]->fill_with(x);
        for (int i = 0; i < s[a].r; i++)
          for (int j = 0; j < s[a].c; j++)
            if (stored(L, s[a].r, s[a].c, i, j)) s[a].v[{i, j}] = x;
        break;
      }
      case 10: {
        double x = rv();
        log(fmt("#%d.multiply", a));
        m[a]->multiply(x);
        for (auto &kv : s[a].v) kv.second *= x;
        break;
      }
      case 11:
        if (m.size() > 1) {
          log(fmt("destroy#%d", a));
          m.erase(m.begin() + a);
          s.erase(s.begin() + a);
        }
        break;
      default:
        dims(r, c);
        add(r, c);
      }
      if (PART == 3)
        for (size_t k = 0; k < m.size(); k++) same(k, "history");
      if (PART == 2) {
        own();
        touch();
      }
    }
    m.clear();
  }
  // ---------------------------------------------------------------- expressions
  typedef std::function<double(int, int)> G;
  void cmp(const char *what, const M &x, int r, int c, const G &g, const G &mag) {
    if (x.rows() != r || x.cols() != c) {
      fail(std::string(what) + " dimensions", fmt("%s result %dx%d expected %dx%d", nm, x.rows(), x.cols(), r, c));
      return;
    }
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        if (stored(L, r, c, i, j)) {
          double e = g(i, j), t = x(i, j);
          if (!(std::fabs(t - e) <= 1e-13 * (mag(i, j) + std::fabs(e)))) {
            fail(std::string(what) + " value", fmt("%s (%d,%d)=%.17g expected %.17g", nm, i, j, t, e));
            return;
          }
        }
  }
  void expr() {
    m.clear();
    s.clear();
    hist.clear();
    int r = ri(1, 6), c = sq() ? r : ri(1, 6);
    if (ri(0, 30) == 0) r = ri(1, 40), c = sq() ? r : ri(1, 40);
    // reduced sizes; operands may be larger than the region and differ from each other
    bool red = ri(0, 1);
    auto dim = [&](int &R, int &C) {
      R = r, C = c;
      if (red) {
        R = r + ri(0, 3), C = sq() ? R : c + ri(0, 3);
      }
    };
    int R, C;
    for (int k = 0; k < 4; k++) {
      dim(R, C);
      add(R, C);
    }
    std::vector<Sh> s0 = s;
    double f = rv(), g = rv();
    int ia = ri(0, 2), ib = ri(0, 2), id = ri(0, 2), io = 3;
    if (ri(0, 3) == 0) ia = 3;
    if (ri(0, 3) == 0) ib = 3;
    bool acc = ri(0, 1);
    if (!acc) {
      ia %= 3;
      ib %= 3;
    }
    const M &A = *m[ia], &B = *m[ib], &D = *m[id];
    M &O = *m[io];
    auto val = [&](int k) { return [&, k](int i, int j) -> double { return s0[k].v.at({i, j}); }; };
    auto a = val(ia), b = val(ib), d = val(id), o = val(io);
    G mag = [&](int i, int j) {
      double q = 4;
      return q;
    };
    int cr = r, cc = c;
    if (red && ri(0, 1)) {
      cr = ri(0, r);
      cc = sq() && !acc ? cr : ri(0, c);
    }
    if (!acc) {
      if (!red) {
        int w = ri(0, 6);
        log(fmt("expr %d A#%d B#%d D#%d", w, ia, ib, id));
        switch (w) {
        case 0: { M x(A + B); cmp("A+B", x, r, c, [&](int i, int j) { return a(i, j) + b(i, j); }, mag); } break;
        case 1: { M x(A + B * f); cmp("A+B*f", x, r, c, [&](int i, int j) { return a(i, j) + b(i, j) * f; }, mag); } break;
        case 2: { M x(f * A + B * g); cmp("f*A+B*g", x, r, c, [&](int i, int j) { return f * a(i, j) + b(i, j) * g; }, mag); } break;
        case 3: { M x(A * f); cmp("A*f", x, r, c, [&](int i, int j) { return a(i, j) * f; }, mag); } break;
        case 4: { M x(f * A); cmp("f*A", x, r, c, [&](int i, int j) { return a(i, j) * f; }, mag); } break;
        case 5: { M x((A + B) + D * f); cmp("A+B+D*f", x, r, c, [&](int i, int j) { return a(i, j) + b(i, j) + d(i, j) * f; }, mag); } break;
        default: { M x((A + B * f) + D); cmp("A+B*f+D", x, r, c, [&](int i, int j) { return a(i, j) + b(i, j) * f + d(i, j); }, mag); }
        }
      } else {
        log(fmt("reduced(%d,%d) A#%d(%dx%d) B#%d(%dx%d)", cr, cc, ia, s0[ia].r, s0[ia].c, ib, s0[ib].r, s0[ib].c));
        if (ri(0, 1)) {
          M x(A.reduced_view(cr, cc) + B.reduced_view(cr, cc));
          cmp("reduced A+B", x, cr, cc, [&](int i, int j) { return a(i, j) + b(i, j); }, mag);
        } else {
          M x(A.reduced_view(cr, cc) + B.reduced_view(cr, cc) * f);
          cmp("reduced A+B*f", x, cr, cc, [&](int i, int j) { return a(i, j) + b(i, j) * f; }, mag);
        }
      }
    } else {
      G e;
      const char *what = "";
      int w = ri(0, 3);
      if (!red) {
        log(fmt("+= %d A#%d B#%d", w, ia, ib));
        switch (w) {
        case 0: O += A; what = "+= A"; e = [&](int i, int j) { return a(i, j); }; break;
        case 1: O += A * f; what = "+= A*f"; e = [&](int i, int j) { return a(i, j) * f; }; break;
        case 2: O += A + B; what = "+= A+B"; e = [&](int i, int j) { return a(i, j) + b(i, j); }; break;
        default: O += A + B * f; what = "+= A+B*f"; e = [&](int i, int j) { return a(i, j) + b(i, j) * f; };
        }
        cr = s0[io].r, cc = s0[io].c;
      } else {
        log(fmt("+= reduced(%d,%d) %d O(%dx%d) A#%d(%dx%d) B#%d(%dx%d)", cr, cc, w, s0[io].r, s0[io].c, ia, s0[ia].r, s0[ia].c, ib, s0[ib].r, s0[ib].c));
        switch (w) {
        case 0: O += A.reduced_view(cr, cc); what = "+= view"; e = [&](int i, int j) { return a(i, j); }; break;
        case 1: O += f * A.reduced_view(cr, cc); what = "+= f*view"; e = [&](int i, int j) { return a(i, j) * f; }; break;
        case 2: O += A.reduced_view(cr, cc) + B.reduced_view(cr, cc) * f; what = "+= view+view*f"; e = [&](int i, int j) { return a(i, j) + b(i, j) * f; }; break;
        default: O += f * A.reduced_view(cr, cc) + B.reduced_view(cr, cc) * f; what = "+= f*view+view*f"; e = [&](int i, int j) { return a(i, j) * f + b(i, j) * f; };
        }
      }
      cmp(what, O, s0[io].r, s0[io].c, [&](int i, int j) { return o(i, j) + (i < cr && j < cc ? e(i, j) : 0.0); }, [&](int i, int j) { return i < cr && j < cc ? 4.0 : 0.0; });
      s[io].v.clear();
    }
    for (int k = 0; k < 4; k++)
      if (!(acc && k == io)) same(k, "operand modified:");
  }
  void run(int n) {
    for (int k = 0; k < n; k++) {
      if (PART == 4) expr();
      else lifecycle();
    }
    m.clear();
  }
};
int main(int argc, char **argv) {
  start(argc, argv);
  int n = thorough ? 30000 : (PART == 4 ? 4000 : 1500);
  Lay<MatrixStorageType::RowWise>{RW, "RowWise"}.run(n);
  Lay<MatrixStorageType::ColumnWise>{CW, "ColumnWise"}.run(n);
  Lay<MatrixStorageType::Trapezoid>{TR, "Trapezoid"}.run(n);
  Lay<MatrixStorageType::LwTriangularRowWise>{LR, "LwTriangularRowWise"}.run(n);
  Lay<MatrixStorageType::LwTriangularColWise>{LC, "LwTriangularColWise"}.run(n);
  return finish();
}
