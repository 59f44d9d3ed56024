"""C05: Stokes coefficient sets keep degree, order and coefficients consistent"""
from props import stokes as ST
ID = "C05"
HARNESS = ST.HARNESS


def contracts():
    return ST.c05()


DEPENDS = ("C01",)
ASSUMPTIONS = ["0 <= order <= degree < 46340", "operator new succeeds (the operations are noexcept)",
               "a moved-from set may only be destroyed, assigned to, swapped or resized"]
NATIVE = [("n_stokes.cpp", ["src/lib/stokes_coefficients.cpp"], dict(defs=("-DPART=5", "-fno-sanitize=nonnull-attribute")))]
