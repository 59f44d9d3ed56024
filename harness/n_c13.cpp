#include "kahan.hpp"
#include "nat.hpp"
using namespace nat;
static double term(int kind) {
  switch (kind) {
  case 0: return rd(-1, 1);
  case 1: return std::ldexp(rd(-1, 1), ri(-60, 60));
  case 2: return double(ri(-1000, 1000));
  case 3: return ri(0, 1) ? 1e16 : -1e16;
  case 4: return std::ldexp(ri(0, 1) ? 1.0 : -1.0, ri(-55, 55));
  default: return std::ldexp(rd(-1, 1), ri(-1000, 1000));
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  long N = thorough ? 400000 : 40000;
  for (long t = 0; t < N; t++) {
    int kind = ri(0, 6), n = ri(0, 12);
    double v0 = ri(0, 2) ? term(kind % 6) : 0;
    dso::KahanSum k(v0), k0;
    if (v0 == 0) k = k0;
    double s = v0, c = 0;
    std::string h = fmt("v0=%a", v0);
    bool exact = true;
    double plain = v0;
    double last = v0;
    ck(static_cast<double>(k) == v0, "initial value");
    for (int i = 0; i < n; i++) {
      double v = term(kind == 6 ? (int)ri(0, 5) : kind);
      if (ri(0, 9) == 0) v = ri(0, 1) ? s : -s; // equal magnitudes
      if (ri(0, 9) == 0) v = -last;
      last = v;
      h += fmt(" %a", v);
      k += v;
      double u = s + v;
      if (std::fabs(s) >= std::fabs(v)) c += (s - u) + v;
      else c += (v - u) + s;
      // exactness of this addition (TwoSum)
      double bb = u - s, e = (s - (u - bb)) + (v - bb);
      if (e != 0) exact = false;
      s = u;
      plain += v;
      double g = static_cast<double>(k);
      mark(h);
      ck(g == s + c, "value is not Neumaier's", fmt("got %a expected %a", g, s + c));
      if (exact) ck(g == plain, "exact sums are lost", fmt("got %a expected %a", g, plain));
    }
    const dso::KahanSum cp = k;
    ck(static_cast<double>(cp) == s + c, "copy");
  }
  return finish();
}
