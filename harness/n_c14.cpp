// Grids whose coordinates are exact in binary: node numbers, coordinates, cells, corners, points outside
#include "grid.hpp"
#include "nat.hpp"
using namespace nat;
template <dso::GridAxis A> void one(const char *nm) {
  const int nx = ri(1, 9), ny = ri(1, 9);
  const double dx = std::ldexp(double(ri(1, 7)), ri(-4, 3)), dy = std::ldexp(double(ri(1, 7)), ri(-4, 3));
  const double xs = ri(-40, 40) * 0.25, ys = ri(-40, 40) * 0.25;
  const dso::TwoDimGrid<A> g(xs, dx, nx, ys, dy, ny);
  mark(fmt("axis=%s nx=%d ny=%d dx=%g dy=%g xs=%g ys=%g", nm, nx, ny, dx, dy, xs, ys));
  auto num = [&](int i, int j) { return A == dso::GridAxis::X ? long(i) * ny + j : long(j) * nx + i; };
  ck(g.xstep() == dx && g.ystep() == dy && g.xstop() == xs + nx * dx && g.ystop() == ys + ny * dy, "axes");
  static const double in[] = {0, 0.25, 0.5, 0.875};
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      const long k = num(i, j);
      auto n = g.xyindex2node(k);
      ck(n.x == xs + i * dx && n.y == ys + j * dy, "coordinates of a node");
      ck(g.line(n.x, n.y) == k, "round trip");
      for (double u : in)
        for (double v : in) {
          const double x = xs + (i + u) * dx, y = ys + (j + v) * dy;
          ck(g.line(x, y) == k, "point inside a cell");
          long a = -7, b = -7, c = -7, d = -7;
          g.surrounding_nodes(x, y, a, b, c, d);
          ck(a == k, "lower left corner");
          if (i + 1 < nx && j + 1 < ny) ck(b == num(i + 1, j) && c == num(i, j + 1) && d == num(i + 1, j + 1), "corners of an inner cell");
        }
    }
  const double X[] = {xs - dx / 4, xs - 3 * dx, g.xstop(), g.xstop() + dx, NAN, INFINITY, -INFINITY, xs, xs + dx / 2};
  const double Y[] = {ys - dy / 4, ys - 3 * dy, g.ystop(), g.ystop() + dy, NAN, INFINITY, -INFINITY, ys, ys + dy / 2};
  for (int p = 0; p < 9; p++)
    for (int q = 0; q < 9; q++) {
      if (p > 6 && q > 6) continue;
      ck(g.line(X[p], Y[q]) == -1, "point outside");
      long a = 1, b = 1, c = 1, d = 1;
      g.surrounding_nodes(X[p], Y[q], a, b, c, d);
      ck(a == -1 && b == -1 && c == -1 && d == -1, "neighbours of a point outside");
    }
}
int main(int argc, char **argv) {
  start(argc, argv);
  if (!freopen("/dev/null", "w", stderr)) return 3;
  for (int t = 0; t < (thorough ? 20000 : 1000); t++) {
    one<dso::GridAxis::X>("X");
    one<dso::GridAxis::Y>("Y");
  }
  return finish();
}
