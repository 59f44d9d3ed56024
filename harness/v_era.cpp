// Entry points: Earth rotation angle, Greenwich mean sidereal time and its rate
#include "iau/era00.cpp"
#include "iau/gmst.cpp"
#include "iau/dgmst.cpp"
extern "C" {
double vc_era00(int m, double s) {
  const dso::MjdEpoch ut1(m, s);
  return dso::era00(ut1);
}
double vc_gmst(int mt, double st, int m, double s) {
  const dso::MjdEpoch tt(mt, st), ut1(m, s);
  return dso::gmst(tt, ut1);
}
double vc_dgmst(int mt, double st) {
  const dso::MjdEpoch tt(mt, st);
  return dso::dgmst(tt);
}
double vc_sp00(int mt, double st) {
  const dso::MjdEpoch tt(mt, st);
  return dso::sp00(tt);
}
}
