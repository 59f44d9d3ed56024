#include "coeff_matrix_storage.hpp"
#include "nat.hpp"
using namespace nat;
using dso::MatrixStorageType;
typedef long long ll;
enum { RW, CW, TR, LR, LC };
static bool stored(int L, ll r, ll c, ll i, ll j) {
  if (i < 0 || j < 0 || i >= r || j >= c) return false;
  return L == RW || L == CW || j <= i;
}
template <MatrixStorageType S> static void one(int L, const char *nm, int r, int c, bool set) {
  if ((L == LR || L == LC) && r != c) return;
  mark(fmt("%s %dx%d set=%d", nm, r, c, set));
  int r0 = 2, c0 = (L == LR || L == LC) ? 2 : 3;
  dso::StorageImplementation<S> s(set ? r0 : r, set ? c0 : c);
  if (set) s.__set_dimensions(r, c);
  ck(s.nrows() == r, "nrows");
  ck(s.ncols() == c, "ncols");
  bool rm = !(L == CW || L == LC);
  int ns = rm ? r : c;
  ck(s.num_slices() == ns, "num_slices");
  ll off = 0;
  bool full = (ll)r * c <= 4000;
  ll nsamp = full ? ns : 40;
  if (full) {
    for (int k = 0; k < ns; k++) {
      ll len = 0;
      int o = rm ? r : 0;
      (void)o;
      for (int q = 0; q < (rm ? c : r); q++) {
        int i = rm ? k : q, j = rm ? q : k;
        if (stored(L, r, c, i, j)) {
          if (s.index(i, j) != off + len) fail("index", fmt("%s %dx%d index(%d,%d)=%d expected %lld", nm, r, c, i, j, s.index(i, j), off + len));
          len++;
        }
      }
      int n = -9;
      ck(s.slice(k) == off || len == 0, "slice", fmt("%s %dx%d slice(%d)=%d expected %lld", nm, r, c, k, s.slice(k), off));
      ck(s.slice(k, n) == s.slice(k), "slice/len-start");
      ck(n == len, "slice/len", fmt("%s %dx%d len(%d)=%d expected %lld", nm, r, c, k, n, len));
      off += len;
    }
    ck((ll)s.num_elements() == off, "num_elements", fmt("%s %dx%d num_elements=%zu expected %lld", nm, r, c, s.num_elements(), off));
  } else {
    auto ss = [&](ll k) -> ll {
      switch (L) {
      case RW: return k * c;
      case CW: return k * r;
      case TR: return k <= c ? k * (k + 1) / 2 : (ll)c * (c + 1) / 2 + (k - c) * c;
      case LR: return k * (k + 1) / 2;
      default: return k * r - k * (k - 1) / 2;
      }
    };
    ck((ll)s.num_elements() == ss(ns), "num_elements", fmt("%s %dx%d num_elements=%zu expected %lld", nm, r, c, s.num_elements(), ss(ns)));
    for (ll t = 0; t < nsamp && ns > 0; t++) {
      int k = t == 0 ? 0 : t == 1 ? ns - 1 : ri(0, ns - 1);
      int n = -9;
      ck(s.slice(k) == ss(k), "slice", fmt("%s %dx%d slice(%d)=%d expected %lld", nm, r, c, k, s.slice(k), ss(k)));
      ck(s.slice(k, n) == ss(k), "slice/len-start");
      ck(n == ss(k + 1) - ss(k), "slice/len");
      int m = ri(0, n > 0 ? n - 1 : 0);
      int i = rm ? k : (L == LC ? k + m : m), j = rm ? m : k;
      if (stored(L, r, c, i, j)) ck(s.index(i, j) == ss(k) + m, "index", fmt("%s %dx%d index(%d,%d)=%d expected %lld", nm, r, c, i, j, s.index(i, j), ss(k) + m));
    }
  }
}
static void all(int r, int c) {
  for (int set = 0; set < 2; set++) {
    one<MatrixStorageType::RowWise>(RW, "RowWise", r, c, set);
    one<MatrixStorageType::ColumnWise>(CW, "ColumnWise", r, c, set);
    one<MatrixStorageType::Trapezoid>(TR, "Trapezoid", r, c, set);
    one<MatrixStorageType::LwTriangularRowWise>(LR, "LwTriangularRowWise", r, c, set);
    one<MatrixStorageType::LwTriangularColWise>(LC, "LwTriangularColWise", r, c, set);
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  int N = thorough ? 40 : 16;
  for (int r = 0; r <= N; r++)
    for (int c = 0; c <= N; c++) all(r, c);
  all(46340, 46340);
  all(30000, 30000);
  all(46339, 46341);
  for (int k = 0; k < (thorough ? 400 : 30); k++) {
    int r = ri(1, 46340), c = ri(1, 46340);
    all(r, c);
    all(r, r);
    all(ri(1, 300), ri(1, 300));
  }
  if (par.count("r")) {
    ll r = parl("r", 1), c = parl("c", r);
    if (r >= 0 && c >= 0 && r * c <= 2147483647 && r < 100000000) all(r, c);
  }
  return finish();
}
