"""C07: packing Stokes coefficients into a matrix and back is lossless"""
from props import stokes as ST
ID = "C07"
HARNESS = ST.HARNESS


def contracts():
    return ST.c07()


DEPENDS = ("C01",)
ASSUMPTIONS = ["0 <= order <= degree < 46340, square packed matrix with at least one row", "memory is available"]
NATIVE = [("n_stokes.cpp", ["src/lib/stokes_coefficients.cpp"], dict(defs=("-DPART=7", "-fno-sanitize=nonnull-attribute")))]
