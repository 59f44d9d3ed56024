"""C06: adding, scaling and clearing Stokes coefficients act on every coefficient"""
from props import stokes as ST
ID = "C06"
HARNESS = ST.HARNESS


def contracts():
    return ST.c06()


DEPENDS = ("C01",)
ASSUMPTIONS = ["0 <= order <= degree < 46340", "sums and products in real arithmetic (one rounding per coefficient is not modelled)"]
NATIVE = [("n_stokes.cpp", ["src/lib/stokes_coefficients.cpp"], dict(defs=("-DPART=6", "-fno-sanitize=nonnull-attribute")))]
