// Entry points: two-dimensional grids (the object is built by its constructor from the given parameters)
#include "grid.hpp"
template <dso::GridAxis A> using G = dso::TwoDimGrid<A>;
#define GP double xs, double dx, int nx, double ys, double dy, int ny
#define ENTRIES(A)                                                                                                     \
  long vc_line_##A(GP, double x, double y) {                                                                           \
    const G<dso::GridAxis::A> g(xs, dx, nx, ys, dy, ny);                                                               \
    return g.line(x, y);                                                                                               \
  }                                                                                                                    \
  void vc_node_##A(GP, long k, double *o) {                                                                            \
    const G<dso::GridAxis::A> g(xs, dx, nx, ys, dy, ny);                                                               \
    auto n = g.xyindex2node(k);                                                                                        \
    o[0] = n.x;                                                                                                        \
    o[1] = n.y;                                                                                                        \
  }                                                                                                                    \
  long vc_round_##A(GP, long k) {                                                                                      \
    const G<dso::GridAxis::A> g(xs, dx, nx, ys, dy, ny);                                                               \
    auto n = g.xyindex2node(k);                                                                                        \
    return g.line(n.x, n.y);                                                                                           \
  }                                                                                                                    \
  void vc_corners_##A(GP, double x, double y, long *bl, long *br, long *tl, long *tr) {                                \
    const G<dso::GridAxis::A> g(xs, dx, nx, ys, dy, ny);                                                               \
    g.surrounding_nodes(x, y, *bl, *br, *tl, *tr);                                                                     \
  }                                                                                                                    \
  void vc_steps_##A(GP, double *o) {                                                                                   \
    const G<dso::GridAxis::A> g(xs, dx, nx, ys, dy, ny);                                                               \
    o[0] = g.xstep();                                                                                                  \
    o[1] = g.ystep();                                                                                                  \
    o[2] = g.xstop();                                                                                                  \
    o[3] = g.ystop();                                                                                                  \
  }
extern "C" {
ENTRIES(X)
ENTRIES(Y)
}
