// Earth rotation angle and sidereal time against long double evaluation; the rate against differences of GMST
#include "iau.hpp"
#include "nat.hpp"
using namespace nat;
typedef long double L;
static const L TW = 6.283185307179586476925286766559L;
static bool turn(L got, L want, L tol) {
  L d = std::fmod(got - want, TW);
  if (d < 0) d += TW;
  return d < tol || TW - d < tol;
}
static L P(L t) { return (0.014506L + (4612.156534L + (1.3915817L + (-0.00000044L + (-0.000029956L - 0.0000000368L * t) * t) * t) * t) * t) * TW / 1296000.0L; }
static L D(L t) { return (4612.156534L + (2 * 1.3915817L + (3 * -0.00000044L + (4 * -0.000029956L - 5 * 0.0000000368L * t) * t) * t) * t) * TW / 1296000.0L; }
int main(int argc, char **argv) {
  start(argc, argv);
  for (int q = 0; q < (thorough ? 400000 : 20000); q++) {
    const int span = q % 3 ? 40000 : 3000000;
    const dso::MjdEpoch u(51544 + ri(-span, span), q % 7 ? rd(0, 1) : 0), t(51544 + ri(-span, span), q % 5 ? rd(0, 1) : 0);
    mark(fmt("UT1 %d + %.17g, TT %d + %.17g", u.m, u.f, t.m, t.f));
    const L tu = L(u.m - 51544) + (L(u.f) - 0.5L), jc = (L(t.m - 51544) + (L(t.f) - 0.5L)) / 36525.0L;
    const L era = TW * (std::fmod(tu, 1.0L) + 0.7790572732640L + 0.00273781191135448L * tu);
    const double e = dso::era00(u), g = dso::gmst(t, u), r = dso::dgmst(t);
    ck(e >= 0 && e < dso::D2PI && turn(e, era, 1e-9L), "Earth rotation angle");
    ck(g >= 0 && g < dso::D2PI && turn(g, era + P(jc), 1e-9L), "GMST");
    const L w = TW * 1.00273781191135448L + D(jc) / 36525.0L;
    ck(std::abs(r - w) < 4e-15L * std::abs(w), "rate of GMST");
  }
  return finish();
}
