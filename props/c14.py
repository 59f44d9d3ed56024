"""C14: grid node numbering and its inverse"""
from vc.contract import Contract
from vc.terms import *

ID = "C14"
HARNESS = "v_grid.cpp"
NATIVE = [("n_c14.cpp", [])]
ASSUMPTIONS = ["positive steps, at least one node per axis, at most 2^31-1 nodes",
               "real arithmetic: coordinates that rounding moves across a cell border are not covered (the driver uses grids whose coordinates are exact in binary)"]
IMAX = (1 << 31) - 1


def grid(K):
    K.xs, K.dx, K.ys, K.dy = (K.real(n) for n in ("xs", "dx", "ys", "dy"))
    K.nx, K.ny = K.int("nx", 1, IMAX), K.int("ny", 1, IMAX)
    K.assume(fcmp("ogt", K.dx, fc(0.0)))
    K.assume(fcmp("ogt", K.dy, fc(0.0)))
    K.assume(ble(K.nx * K.ny, IMAX))
    return [K.xs, K.dx, K.nx, K.ys, K.dy, K.ny]


def number(K, ax, i, j):
    return i * K.ny + j if ax == "X" else j * K.nx + i


def node(K):
    """any node: column i, row j"""
    K.i, K.j = K.int("i", 0, IMAX), K.int("j", 0, IMAX)
    K.assume(blt(K.i, K.nx))
    K.assume(blt(K.j, K.ny))
    K.ex.targets = [K.i, K.j]


def at(x0, dx, i):
    return fadd(x0, fmul(i2f(i), dx))


def incell(K):
    """any point on or inside cell (i,j): on its left/lower border or before its right/upper one"""
    K.x, K.y = K.real("x"), K.real("y")
    for v, x0, dx, i in ((K.x, K.xs, K.dx, K.i), (K.y, K.ys, K.dy, K.j)):
        K.assume(fcmp("ole", at(x0, dx, i), v))
        K.assume(fcmp("olt", v, at(x0, dx, i + 1)))


def is_(K, st, what, v, want):
    K.ensure(st, what, beq(v, want) if is_int(v) else False)


def contracts():
    out = []
    for ax in "XY":
        def line_in(K):
            a = grid(K)
            node(K)
            incell(K)
            return a + [K.x, K.y]

        def line_post(K, st, ax=ax):
            K.ensure(st, "returns", st.status == "ret")
            is_(K, st, "a point on or inside a cell gets the number of the cell's lower-left node", st.ret, number(K, ax, K.i, K.j))

        def outside(K, which):
            K.x, K.y = K.real("x"), K.real("y")
            lo = (fcmp("olt", K.x, K.xs), fcmp("ole", at(K.xs, K.dx, K.nx), K.x), fcmp("olt", K.y, K.ys), fcmp("ole", at(K.ys, K.dy, K.ny), K.y))
            K.assume(lo[which])

        def node_in(K, ax=ax):
            a = grid(K)
            node(K)
            K.o = K.cells("o", 16)
            return a + [number(K, ax, K.i, K.j), K.o]

        def node_post(K, st):
            K.ensure(st, "returns", st.status == "ret")
            K.ensure_f(st, "column of the node", K.get(st, K.o, 0), at(K.xs, K.dx, K.i))
            K.ensure_f(st, "row of the node", K.get(st, K.o, 8), at(K.ys, K.dy, K.j))

        def round_in(K, ax=ax):
            a = grid(K)
            node(K)
            return a + [number(K, ax, K.i, K.j)]

        def round_post(K, st, ax=ax):
            K.ensure(st, "returns", st.status == "ret")
            is_(K, st, "the coordinates of a node give its number back", st.ret, number(K, ax, K.i, K.j))

        def steps_in(K):
            a = grid(K)
            K.o = K.cells("o", 32)
            return a + [K.o]

        def steps_post(K, st):
            K.ensure(st, "returns", st.status == "ret")
            for q, w in enumerate((K.dx, K.dy, at(K.xs, K.dx, K.nx), at(K.ys, K.dy, K.ny))):
                K.ensure_f(st, "steps and ends of the axes", K.get(st, K.o, 8 * q), w)

        def corners_in(K):
            a = grid(K)
            node(K)
            K.assume(blt(K.i + 1, K.nx))
            K.assume(blt(K.j + 1, K.ny))
            incell(K)
            K.c = [K.cells(n, 8) for n in ("bl", "br", "tl", "tr")]
            return a + [K.x, K.y] + K.c

        def corners_post(K, st, ax=ax):
            K.ensure(st, "returns", st.status == "ret")
            for p, di, dj, n in ((K.c[0], 0, 0, "lower left"), (K.c[1], 1, 0, "lower right"), (K.c[2], 0, 1, "upper left"), (K.c[3], 1, 1, "upper right")):
                is_(K, st, f"{n} corner of the cell", K.get(st, p, 0), number(K, ax, K.i + di, K.j + dj))

        o = dict(mode="real", opts={"nra": 4000}, timeout=300)
        cv = [f"TwoDimGrid<GridAxis::{ax}>::{m}" for m in ("line", "xyindex2node", "surrounding_nodes", "xindex", "yindex", "xyindex")]
        out += [Contract(f"number of a point[{ax}]", f"vc_line_{ax}", line_in, line_post, covers=cv[:1] + cv[3:], **o),
                Contract(f"coordinates of a node[{ax}]", f"vc_node_{ax}", node_in, node_post, covers=cv[1:2], **o),
                Contract(f"round trip[{ax}]", f"vc_round_{ax}", round_in, round_post, covers=cv[:2], **o),
                Contract(f"axes[{ax}]", f"vc_steps_{ax}", steps_in, steps_post, covers=[f"TwoDimGrid<GridAxis::{ax}>::xstop"], **o),
                Contract(f"corners[{ax}]", f"vc_corners_{ax}", corners_in, corners_post, covers=cv[2:3], **o)]
        for w, nm in enumerate(("left of", "right of", "below", "above")):
            def out_in(K, w=w):
                a = grid(K)
                outside(K, w)
                return a + [K.x, K.y]

            def out_post(K, st):
                K.ensure(st, "returns", st.status == "ret")
                is_(K, st, "a point outside the grid is reported as -1", st.ret, -1)

            def cout_in(K, w=w):
                a = grid(K)
                outside(K, w)
                K.c = [K.cells(n, 8) for n in ("bl", "br", "tl", "tr")]
                return a + [K.x, K.y] + K.c

            def cout_post(K, st):
                K.ensure(st, "returns", st.status == "ret")
                for p in K.c:
                    is_(K, st, "all four neighbours of a point outside are -1", K.get(st, p, 0), -1)
            out.append(Contract(f"point {nm} the grid[{ax}]", f"vc_line_{ax}", out_in, out_post, covers=cv[:1], **o))
            out.append(Contract(f"neighbours of a point {nm} the grid[{ax}]", f"vc_corners_{ax}", cout_in, cout_post, covers=cv[2:3], **o))
    return out
