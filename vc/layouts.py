"""Mathematical description of the five storage layouts (the specification side)."""
from . import terms as T
from .terms import *
from .loops import View

LAYOUTS = ("RowWise", "ColumnWise", "Trapezoid", "LwTriangularRowWise", "LwTriangularColWise")
IMAX = (1 << 31) - 1
DMAX = 46340
ROWMAJOR = {"RowWise": True, "ColumnWise": False, "Trapezoid": True, "LwTriangularRowWise": True,
            "LwTriangularColWise": False}
SQUARE = {"LwTriangularRowWise", "LwTriangularColWise"}


def half(p):
    return T.exact_div(p, 2) if isinstance(p, Poly) else p // 2


def tri(n):
    """n(n+1)/2"""
    if type(n) is int:
        return n * (n + 1) // 2
    return n * (n + 1) * Fraction(1, 2)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return iite(c, a, b)


def trapS(r, c):
    """number of stored elements in the first r rows of a trapezoid with c columns"""
    return ite(ble(r, c), tri(r), tri(c) + (r - c) * c)


def nslices(L, r, c):
    return r if ROWMAJOR[L] else c


def nelem(L, r, c):
    if L in ("RowWise", "ColumnWise"):
        return r * c
    if L == "Trapezoid":
        return trapS(r, c)
    return tri(r)


def slice0(L, r, c, i):
    if L == "RowWise":
        return i * c
    if L == "ColumnWise":
        return i * r
    if L == "Trapezoid":
        return trapS(i, c)
    if L == "LwTriangularRowWise":
        return tri(i)
    # columns 0..i-1 of lengths r, r-1, ...
    return i * r - (tri(i) - i)


def slicelen(L, r, c, i):
    if L == "RowWise":
        return c
    if L == "ColumnWise":
        return r
    if L == "Trapezoid":
        return ite(ble(i + 1, c), i + 1, c)
    if L == "LwTriangularRowWise":
        return i + 1
    return r - i


def stored(L, r, c, i, j):
    """cell (i, j) is stored"""
    if L in ("RowWise", "ColumnWise"):
        return band(ble(0, i), blt(i, r), ble(0, j), blt(j, c))
    if L == "Trapezoid":
        return band(ble(0, i), blt(i, r), ble(0, j), ble(j, i), blt(j, c))
    return band(ble(0, j), ble(j, i), blt(i, r))


def index(L, r, c, i, j):
    if L == "RowWise":
        return i * c + j
    if L == "ColumnWise":
        return j * r + i
    if L == "Trapezoid":
        return trapS(i, c) + j
    if L == "LwTriangularRowWise":
        return tri(i) + j
    return slice0(L, r, c, j) + (i - j)


def cells(L, r, c):
    return [(i, j) for i in range(r) for j in range(c) if stored(L, r, c, i, j) is True]


def dims_ok(L, r, c):
    """dimensions a matrix of this layout may have (element count fits the int interface)"""
    if L in SQUARE:
        return band(ble(0, r), beq(r, c), ble(r, DMAX))
    return band(ble(0, r), ble(0, c), ble(r, IMAX - 1), ble(c, IMAX - 1), ble(r * c, IMAX))
