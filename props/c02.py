"""C02: coefficient matrices own their memory safely through any history"""
from props import matrix as MX
from vc import layouts as LY
ID = "C02"
HARNESS = MX.HARNESS


def contracts():
    return [c for L in LY.LAYOUTS for c in MX.lifecycle(L, "mem")]


DEPENDS = ("C01",)      # slice/index/num_elements are used through the contracts proved there
NATIVE = [("n_matrix.cpp", [], dict(defs=("-DPART=2", "-fno-sanitize=nonnull-attribute")))]
ASSUMPTIONS = ["dimensions are non-negative and at most 46340, square for the lower-triangular layouts",
               "operator new either throws or returns a fresh buffer of the requested size"]
