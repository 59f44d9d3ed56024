"""C08: normalised Legendre functions satisfy their definition everywhere"""
from props import alf
ID = "C08"
HARNESS = alf.HARNESS


def contracts():
    return alf.contracts(False)


DEPENDS = ("C01",)
ASSUMPTIONS = ["0 <= order <= degree < 46340, storage square with more rows than the degree",
               "real arithmetic: rounding and underflow are not bounded by the proof",
               "sin and cos of the latitude are uninterpreted values t, u",
               "the fully normalised functions are defined by their standard column recurrence (closed form cross-checked by the driver)"]
NATIVE = [("n_alf.cpp", ["src/lib/gravity/forward_column_alf.cpp"], dict(defs=("-DPART=8",)))]
BUDGET = 700
