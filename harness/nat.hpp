// Replay/search drivers: common part.  Usage: exe <seed> <tier> [name=value ...]
// prints "FAIL <key> :: <details>" per failing input, "CASES n DISTINCT m" at the end; exit 1 on failure.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <functional>

namespace nat {
inline std::mt19937_64 rng;
inline bool thorough = false;
inline long cases = 0, fails = 0;
inline std::set<std::string> distinct, samples;
inline std::map<std::string, std::string> par;
inline std::set<std::string> failkeys;

inline long ri(long lo, long hi) { return lo + long(rng() % (unsigned long)(hi - lo + 1)); }
inline double rd(double lo, double hi) { return lo + (hi - lo) * (double(rng() >> 11) / 9007199254740992.0); }
inline double rv() { return rd(-2, 2); }

inline std::string fmt(const char *f, ...) {
  char b[1024];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
inline std::string cur;
// announce a case (printed to stderr-independent log so that a crash can be attributed)
inline void mark(const std::string &s) {
  cur = s;
  ++cases;
  if (distinct.size() < 200000) distinct.insert(s);
  if (samples.size() < 6) samples.insert(s);
  static FILE *f = nullptr;
  static bool tried = false;
  if (!tried) {
    tried = true;
    const char *p = getenv("NAT_LOG");
    if (p) f = fopen(p, "w");
  }
  if (f) {
    rewind(f);
    fprintf(f, "%-400s\n", s.c_str());
    fflush(f);
  }
}
inline void fail(const std::string &key, const std::string &det) {
  ++fails;
  if (failkeys.insert(key).second && failkeys.size() < 40) {
    printf("FAIL %s :: %s :: case %s\n", key.c_str(), det.c_str(), cur.c_str());
    fflush(stdout);
  }
}
inline void ck(bool ok, const char *key, const std::string &det = "") {
  if (!ok) fail(key, det);
}
inline bool close(double a, double b, double rel = 1e-12, double abs = 1e-14) {
  if (a == b) return true;
  if (!(a == a) || !(b == b)) return false;
  return std::fabs(a - b) <= rel * (std::fabs(a) + std::fabs(b)) + abs;
}
inline bool bits(double a, double b) { return !std::memcmp(&a, &b, 8); }
inline void ckc(double a, double b, const char *key, double rel = 1e-12, double abs = 1e-14) {
  if (!close(a, b, rel, abs)) fail(key, fmt("got %.17g expected %.17g", a, b));
}
inline void start(int argc, char **argv) {
  rng.seed(argc > 1 ? strtoull(argv[1], 0, 10) * 2654435761ull + 17 : 17);
  thorough = argc > 2 && !strcmp(argv[2], "thorough");
  for (int i = 3; i < argc; i++) {
    char *e = strchr(argv[i], '=');
    if (e) par[std::string(argv[i], e)] = e + 1;
  }
}
inline long parl(const char *n, long d) {
  auto i = par.find(n);
  return i == par.end() ? d : strtol(i->second.c_str(), 0, 10);
}
inline int finish() {
  printf("CASES %ld DISTINCT %zu\n", cases, distinct.size());
  for (auto &s : samples) printf("SAMPLE %s\n", s.c_str());
  return fails ? 1 : 0;
}
} // namespace nat
