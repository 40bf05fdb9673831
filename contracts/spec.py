"""Specification vocabulary shared by the contracts (written from the documentation and
the property statements, not from the code under contract)."""

X, XI, Y, YI, Z, ZI, ZS, TILE = (
    "x", "x_interface", "y", "y_interface", "z", "z_interface", "z_soil", "tile",
)
XD, YD = (X, XI), (Y, YI)
HORIZ = XD + YD
INTERFACE = (XI, YI, ZI)

WEST, EAST, NORTH, SOUTH, NW, NE, SW, SE = range(8)
EDGES = (WEST, EAST, NORTH, SOUTH)
CORNERS = (NW, NE, SW, SE)
ALL = EDGES + CORNERS
NAMES = ["W", "E", "N", "S", "NW", "NE", "SW", "SE"]

# direction of each boundary: (dy, dx), y grows to the north, x to the east
STEP = {
    WEST: (0, -1), EAST: (0, 1), NORTH: (1, 0), SOUTH: (-1, 0),
    NW: (1, -1), NE: (1, 1), SW: (-1, -1), SE: (-1, 1),
}
BY_STEP = {v: k for k, v in STEP.items()}


def is_interface(dim):
    return dim in INTERFACE


def n_shared(dim):
    """points shared by two adjacent ranks along this dimension"""
    return 1 if dim in INTERFACE else 0


def axis(dims, names):
    for i, d in enumerate(dims):
        if d in names:
            return i
    return None


# families of dimension tuples: every rank 1..4, every order, every staggering kind
DIMS_BASIC = [
    (Y, X), (X, Y), (Z, Y, X), (X, Y, Z), (Y, Z, X),
    (YI, X), (Y, XI), (YI, XI), (XI, YI, ZI), (Z, YI, X), (ZI, Y, XI),
]
DIMS_MORE = DIMS_BASIC + [
    (X,), (Y,), (XI,), (YI,), (Z,), (ZS, Y, X), (X, Z, Y), (Z, X, Y), (Y, X, Z), (Z, X, YI),
    (XI, Z, Y), (X, ZI, YI), (ZS, Z, YI, X), (X, Y, Z, ZS), (Y, ZS, X, ZI), ("xland_interface", Y, X),
]


def dims_for(tier):
    return DIMS_MORE if tier == "thorough" else DIMS_BASIC + [(X,), (YI,), (Z,), ("xland_interface", Y, X), (ZS, Z, YI, X)]


def cells(vc, dims, layout_name="l", prefix="m", lo=1):
    """symbolic number of grid cells per rank for every dimension"""
    return [vc.int("%s_%s" % (prefix, d), lo) for d in dims]


def factor(dim, ly, lx):
    return ly if dim in YD else lx if dim in XD else 1


def pos(dim, j, i):
    return j if dim in YD else i if dim in XD else 0


def metadata(vc, dims, extent, origin=None):
    q = vc.mod("quantity")
    return q.QuantityMetadata(
        origin=tuple(origin or [0] * len(dims)),
        extent=tuple(extent),
        dims=tuple(dims),
        units="m",
        data_type=vc.np.ndarray,
        dtype=vc.np.dtype("float64"),
    )


# ---- the cubed sphere, folded in space (an independent oracle) ---------------------
# Every tile is a face of a cube with outward normal c and in-face axes ex, ey
# (c = ex x ey).  Even tiles continue into the next tile across their east edge and odd
# tiles across their north edge, unrotated; everything else follows from folding.


def _neg(v):
    return tuple(-a for a in v)


def _faces():
    c, ex, ey = (1, 0, 0), (0, 1, 0), (0, 0, 1)
    out = []
    for t in range(6):
        out.append((c, ex, ey))
        if t % 2 == 0:
            c, ex = ex, _neg(c)
        else:
            c, ey = ey, _neg(c)
    assert (c, ex, ey) == out[0] and len({f[0] for f in out}) == 6
    return out


FACES = _faces()


def _dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def fold(t, dy, dx):
    """crossing the edge of tile t in direction (dy, dx): (tile, clockwise rotations)"""
    c, ex, ey = FACES[t]
    v = tuple(dx * a + dy * b for a, b in zip(ex, ey))
    t2 = [k for k, f in enumerate(FACES) if f[0] == v][0]
    c2, ex2, ey2 = FACES[t2]
    # walking across the edge, the direction v becomes -c; the direction along the edge stays
    image = lambda w: _neg(c) if w == v else (c if w == _neg(v) else w)
    a = (_dot(image(ex), ex2), _dot(image(ex), ey2))  # our x axis seen by the neighbour
    # axes rotated clockwise r times see a fixed vector turn counterclockwise r times
    r = {(1, 0): 0, (0, 1): 1, (-1, 0): 2, (0, -1): 3}[a]
    b = (_dot(image(ey), ex2), _dot(image(ey), ey2))
    assert b == (-a[1], a[0])
    return t2, r


def turn(r, y, x, ny, nx):
    """cell (y, x) of an ny x nx block, seen with axes rotated clockwise r times"""
    r %= 4
    if r == 0:
        return y, x
    if r == 1:
        return x, ny - 1 - y
    if r == 2:
        return ny - 1 - y, nx - 1 - x
    return nx - 1 - x, y


def step_turn(r, dy, dx):
    """direction (dy, dx) seen with axes rotated clockwise r times"""
    for _ in range(r % 4):
        dy, dx = dx, -dy
    return dy, dx


def cube_neighbour(n, t, j, i, bt):
    """(tile, j, i, rotations) of the neighbour of rank (t, j, i), None at a cube corner"""
    dy, dx = STEP[bt]
    y, x = j + dy, i + dx
    cy = -1 if dy < 0 and y < 0 else 1 if dy > 0 and y >= n else 0
    cx = -1 if dx < 0 and x < 0 else 1 if dx > 0 and x >= n else 0
    if cy and cx:
        return None
    if not cy and not cx:
        return t, y, x, 0
    t2, r = fold(t, cy, cx)
    y2, x2 = turn(r, y - cy * n, x - cx * n, n, n)
    return t2, y2, x2, r
