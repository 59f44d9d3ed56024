// Entry points: Doodson numbers (text form, comparisons, angular argument) and Doodson variables
#include <cstdio>
#include "doodson/doodson_from_chars.cpp"
#include "doodson/doodson_to_str.cpp"
#include "doodson/resolve_iers2010_doodson_string.cpp"
typedef dso::DoodsonConstituent D;
static inline D mk(const int *a, double p) { return D(a[0], a[1], a[2], a[3], a[4], a[5], p); }
static inline void put(const D &d, int *o) {
  for (int i = 0; i < 6; i++) o[i] = d(i);
}
extern "C" {
char *vc_dd_str(const int *a, double p, bool fives, char *buf) {
  const D d = mk(a, p);
  return d.str(buf, fives);
}
void vc_dd_round(const int *a, double p, char *buf, int *o) {
  const D d = mk(a, p);
  put(D::from_chars(d.str(buf)), o);
}
void vc_dd_parse(const char *s, int *o) { put(D::from_chars(s), o); }
void vc_dd_resolve(const char *s, int *o) { put(dso::resolve_iers10_doodson_string(s), o); }
void vc_dd_build(const int *a, double p, int *o, double *q) {
  const D d = mk(a, p);
  put(d, o);
  const D e(a);
  put(e, o + 6);
  D g;
  put(g, o + 12);
  for (int i = 0; i < 6; i++) g(i) = a[5 - i];
  put(g, o + 18);
  for (int i = 0; i < 6; i++) o[24 + i] = d.int_array()[i];
  q[0] = d.pifactor();
  q[1] = e.pifactor();
}
int vc_dd_cmp(const int *a, double p, const int *b, double q) {
  const D x = mk(a, p), y = mk(b, q);
  return (x == y) | (x != y) << 1 | x.same_species(y) << 2 | x.same_group(y) << 3 | x.same_constituent(y) << 4;
}
bool vc_dd_eq(const int *a, double p, const int *b, double q) { return mk(a, p) == mk(b, q); }
bool vc_dd_ne(const int *a, double p, const int *b, double q) { return mk(a, p) != mk(b, q); }
bool vc_dd_species(const int *a, double p, const int *b, double q) { return mk(a, p).same_species(mk(b, q)); }
bool vc_dd_group(const int *a, double p, const int *b, double q) { return mk(a, p).same_group(mk(b, q)); }
bool vc_dd_constituent(const int *a, double p, const int *b, double q) { return mk(a, p).same_constituent(mk(b, q)); }
double vc_dd_argument(const int *a, double p, const double *f) { return mk(a, p).argument(f); }
double *vc_dd_variables(const double *f, double gmst, double *d) { return dso::delaunay2doodson(f, gmst, d); }
}
