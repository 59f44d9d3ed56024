// Tidal argument and Doodson variables against long double sums
#include "doodson.hpp"
#include "nat.hpp"
using namespace nat;
typedef long double L;
static const L TW = 6.283185307179586476925286766559L;
static bool turn(L got, L want, L tol) {
  L d = std::fmod(got - want, TW);
  if (d < 0) d += TW;
  return d < tol || TW - d < tol;
}
int main(int argc, char **argv) {
  start(argc, argv);
  for (int q = 0; q < (thorough ? 400000 : 20000); q++) {
    double f[5], d[6], g = rd(-10, 10), w[6];
    int n[6];
    for (double &x : f) x = q % 3 ? rd(0, 6.3) : rd(-50, 50);
    for (int &x : n) x = q % 5 ? ri(-9, 9) : ri(-300, 300);
    mark(fmt("l.. %.17g %.17g %.17g %.17g %.17g gmst %.17g multipliers %d %d %d %d %d %d", f[0], f[1], f[2], f[3], f[4], g, n[0], n[1], n[2], n[3], n[4], n[5]));
    ck(dso::delaunay2doodson(f, g, d) == d, "returned array");
    const L l = f[0], lp = f[1], F = f[2], D = f[3], O = f[4], s = F + O;
    const L b[6] = {g + TW / 2 - s, s, s - D, s - l, -O, s - D - lp};
    for (int i = 0; i < 6; i++) ck(d[i] >= 0 && d[i] <= TW && turn(d[i], b[i], 1e-12L), "Doodson variable", fmt("%d: %.17g", i, d[i]));
    const dso::DoodsonConstituent c(n[0], n[1], n[2], n[3], n[4], n[5], rv());
    L t = 0, u = 0;
    for (int i = 0; i < 6; i++) {
      t += d[i] * (L)n[i];
      u += b[i] * n[i];
      w[i] = rd(-20, 20);
    }
    ck(turn(c.argument(d), t, 1e-10L), "argument");
    ck(turn(c.argument(d), u, 1e-9L), "argument in Delaunay variables");
    t = 0;
    for (int i = 0; i < 6; i++) t += w[i] * (L)n[i];
    ck(turn(c.argument(w), t, 1e-10L), "argument of unreduced variables");
  }
  return finish();
}
