"""C11: spherical-harmonic acceleration and gradient"""
from props import cunn
ID = "C11"
HARNESS = cunn.HARNESS
DEBUG = False


def contracts():
    return cunn.c11()


DEPENDS = ("C01",)
BUDGET = 650
NATIVE = [("n_cunn.cpp", ["src/lib/gravity/sh_cunningham_normalized_gradient.cpp", "src/lib/stokes_coefficients.cpp"], dict(defs=("-DPART=11",)))]
ASSUMPTIONS = ["0 <= order <= degree <= 198, coefficients at least that large, scratch given and square with at least degree+3 rows, Re > 0, GM > 0 given; every other way to call it is C12's",
               "real arithmetic: rounding and underflow are not bounded by the proof",
               "the contract states the harmonics V, W by their standard normalised recurrences and the partial derivatives of each "
               "solid harmonic by Cunningham's formulas; that these are the derivatives of the potential is checked numerically by the "
               "driver (second order jets of the potential in long double, every coefficient up to degree 12 alone), not proved"]
