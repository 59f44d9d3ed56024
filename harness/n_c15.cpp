// Doodson numbers: text form and back, rejected texts, comparisons
#include "doodson.hpp"
#include "nat.hpp"
using namespace nat;
typedef dso::DoodsonConstituent D;
static int val(int c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'A' && c <= 'Z') c += 32;
  if (c >= 'a' && c <= 'm') return c - 'a' + 10;
  if (c >= 'n' && c <= 'z') return c - 'n' - 13;
  return 99;
}
template <class F> static bool parse(F f, const char *s, int *o) {
  try {
    const D d = f(s);
    for (int i = 0; i < 6; i++) o[i] = d(i);
    return true;
  } catch (std::exception &) {
    return false;
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  if (!freopen("/dev/null", "w", stderr)) return 3;
  static const char ab[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
  for (int q = 0; q < (thorough ? 400000 : 20000); q++) {
    int n[6], o[6];
    for (int i = 0; i < 6; i++) n[i] = ri(-13, 22) - (i ? 5 : 0);
    if (q % 4 == 0)
      for (int i = 0; i < 6; i++) n[i] = ri(-4, 4) + (i ? 0 : 4);
    const double pi = q % 3 ? 0 : rv();
    const D d(n[0], n[1], n[2], n[3], n[4], n[5], pi);
    char *buf = new char[8];
    mark(fmt("multipliers %d %d %d %d %d %d", n[0], n[1], n[2], n[3], n[4], n[5]));
    ck(d.str(buf) == buf && buf[3] == '.' && std::strlen(buf) == 7, "text form");
    for (int i = 0; i < 6; i++) ck(val(buf[i + (i > 2)]) == n[i] + (i ? 5 : 0), "characters");
    ck(parse(D::from_chars, buf, o) && !std::memcmp(o, n, sizeof n), "round trip");
    bool plain = true;
    for (int i = 0; i < 6; i++) plain = plain && n[i] >= -13;
    if (plain) {
      d.str(buf, false);
      for (int i = 0; i < 6; i++) ck(val(buf[i + (i > 2)]) == n[i], "characters (plain)");
    }
    /* texts */
    char *s = new char[8];
    for (int i = 0; i < 7; i++) s[i] = q % 2 ? ab[ri(0, 9)] : ab[ri(0, 61)];
    s[3] = '.';
    s[7] = 0;
    const bool bad = q % 5 == 0, badc = q % 7 == 0;
    if (bad) do s[3] = ri(1, 126); while (s[3] == '.');
    if (badc) do s[(q / 7) % 3 + 4 * (q / 21 % 2)] = ri(1, 126); while (val(s[(q / 7) % 3 + 4 * (q / 21 % 2)]) != 99);
    mark(fmt("text \"%s\"", s));
    const bool ok = parse(D::from_chars, s, o);
    ck(ok == !(bad || badc), "rejected exactly when malformed");
    for (int i = 0; i < 6 && ok; i++) ck(o[i] == val(s[i + (i > 2)]) - (i ? 5 : 0), "multipliers read");
    if (q % 2 && !badc) {
      const bool r = parse(dso::resolve_iers10_doodson_string, s, o);
      ck(r == !bad, "digits: rejected exactly when malformed");
      for (int i = 0; i < 6 && r; i++) ck(o[i] == s[i + (i > 2)] - '0' - (i ? 5 : 0), "digits: multipliers read");
    }
    /* comparisons: one difference at a time */
    int m[6];
    std::memcpy(m, n, sizeof m);
    double pj = pi;
    const int k = ri(-1, 6);
    if (k >= 0 && k < 6) m[k] += ri(1, 3);
    if (k == 6) pj += 1;
    const D e(m[0], m[1], m[2], m[3], m[4], m[5], pj);
    mark(fmt("compare, difference at %d", k));
    ck((d == e) == (k < 0) && (d != e) == (k >= 0), "equality");
    ck(d.same_species(e) == (k != 0) && d.same_group(e) == (k != 0 && k != 1) && d.same_constituent(e) == (k < 0 || k > 2), "species, group, constituent");
    delete[] s;
    delete[] buf;
  }
  return finish();
}
