"""C12: requests, scratch space and memory of the spherical harmonics evaluation"""
from props import cunn
ID = "C12"
HARNESS = cunn.HARNESS
DEBUG = False


def contracts():
    return cunn.c12()


DEPENDS = ("C01", "C11")
BUDGET = 650
NATIVE = [("n_cunn.cpp", ["src/lib/gravity/sh_cunningham_normalized_gradient.cpp", "src/lib/stokes_coefficients.cpp"], dict(defs=("-DPART=12",)))]
ASSUMPTIONS = ["coefficient set in a valid state (C05) of degree at most 46336; given scratch matrices are valid, distinct objects with buffers of their own (C02)",
               "operator new returns a buffer of the requested size (if it throws, the noexcept function terminates the program); fprintf only reads its arguments",
               "independence of previous scratch contents and sizes is the value contract of C11 (results are functions of coefficients and position), listed as dependency"]
