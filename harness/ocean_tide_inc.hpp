// The tide models with a stand-in for the AOD1B file reader (aod1b.hpp needs parts of the absent datetime library): one product
// held in memory.
#pragma once
#include "eigen3/Eigen/Eigen"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <stdexcept>
#include <string>
#include <vector>
#define __DSO_AOD1B_IPARSER_GPP__
#include "datetime/calendar.hpp"
#include "stokes_coefficients.hpp"
#include "doodson.hpp"
namespace dso {
struct Aod1bIn {
  static inline const StokesCoeffs *vc_cos = nullptr, *vc_sin = nullptr;
  static inline const TidalWave *vc_wave = nullptr;
  explicit Aod1bIn(const char *) {
    if (!vc_cos) throw std::runtime_error("no such file");
  }
  int max_degree() const noexcept { return vc_cos->max_degree(); }
  TidalWave tidal_wave() const noexcept { return *vc_wave; }
  int get_tidal_wave_coeffs(StokesCoeffs &c, StokesCoeffs &s, int degree = -1, int order = -1, int = 0) noexcept {
    if (degree > vc_cos->max_degree() || order > degree) return 1;
    c.clear();
    s.clear();
    for (int m = 0; m <= order; m++)
      for (int n = m; n <= degree; n++) {
        c.C(n, m) = vc_cos->C(n, m);
        c.S(n, m) = vc_cos->S(n, m);
        s.C(n, m) = vc_sin->C(n, m);
        s.S(n, m) = vc_sin->S(n, m);
      }
    return 0;
  }
};
} // namespace dso
#include "ocean_tide.hpp"
#include "atmospheric_tides.hpp"
#include "iau.hpp"
#include "ocean_tide/ocean_tide_potential.cpp"
#include "atmospheric_tides/atm_tides_geopotential.cpp"
#include "atmospheric_tides/atm_tides_append_wave.cpp"
