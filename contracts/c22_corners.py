"""C22: corner filling extends halos around tile corners.

With a point of a corner block given by its depths (a beyond the edge along x, b beyond the
edge along y, both counted from 1), a stencil along x meets, a points past the tile edge, the
a-th interior row of the tile across the x edge, at the column which is b beyond that edge:
the block holds the halo value at x-depth b and interior y-depth a (one more on y
interfaces, whose edge row belongs to both tiles).  Along y likewise with x and y exchanged.
"""
from .common import *

DIMS = [(X, Y), (XI, Y), (X, YI), (XI, YI), (X, Y, Z), (XI, YI, ZI), (X, YI, "xland_interface", Z)]
CORNER_AT = [(sx, sy) for sx in (-1, 1) for sy in (-1, 1)]
ASSUMPTIONS = ["the array has halos of at least the requested width at the tile corners it touches, and the compute domain is at least that wide (plus the shared edge)"]


def units(tier):
    u = []
    for dims in DIMS:
        for direction in ("x", "y"):
            for corner in CORNER_AT:
                for one in (True, False):
                    u.append(("corner", dict(dims=dims, direction=direction, corner=corner, touch=one)))
                u.append(("corner", dict(dims=dims, direction=direction, corner=corner, touch=True, narrow=True)))
            u.append(("rest", dict(dims=dims, direction=direction)))
    u += [("refused", dict(dims=d)) for d in [(X, Y), (XI, YI, Z)]]
    u += [("history", dict(direction=d)) for d in ("x", "y")]
    u += [("another", dict(direction=d, dims=a, first=b)) for d in ("x", "y")
          for a, b in (((X, Y), (XI, YI)), ((XI, YI), (X, Y)), ((XI, Y), (X, YI)))]
    return u


class Setup:
    def __init__(self, vc, dims, dtype=float, narrow=()):
        """narrow: the sides (axis, side) which may have less halo than is filled"""
        self.vc, self.dims = vc, dims
        self.n = vc.int("n_halo", 0, small=3)
        self.ly, self.lx = vc.int("ly", 1, small=2), vc.int("lx", 1, small=2)
        self.j, self.i = vc.int("j", 0, self.ly - 1), vc.int("i", 0, self.lx - 1)
        self.rank = vc.choice("tile", [0, 3]) * self.ly * self.lx + self.j * self.lx + self.i
        self.part = vc.mod("partitioner").TilePartitioner((self.ly, self.lx))
        extent, origin, after = [], [], []
        for k, d in enumerate(dims):
            more = vc.int("more%d" % k, 1 if k > 1 else 0, small=3)
            pads = vc.int("lo%d" % k, 0, small=2), vc.int("hi%d" % k, 0, small=2)
            extent.append(more if k > 1 else self.n + n_shared(d) + more)
            origin.append(pads[0] if k > 1 or (k, -1) in narrow else self.n + pads[0])
            after.append(pads[1] if k > 1 or (k, 1) in narrow else self.n + pads[1])
        self.extent, self.origin = tuple(extent), tuple(origin)
        self.shape = tuple(o + e + b for o, e, b in zip(origin, extent, after))
        self.q = vc.mod("quantity").Quantity(vc.array("data", self.shape, dtype), dims=dims, units="m",
                                             origin=self.origin, extent=self.extent)
        self.before = snapshot(vc, self.q.data)

    def touches(self, sx, sy):
        x = self.i == 0 if sx < 0 else self.i == self.lx - 1
        y = self.j == 0 if sy < 0 else self.j == self.ly - 1
        return self.vc.all([x, y])

    def beyond(self, k, s, depth):
        """array index of the point `depth` beyond the edge of axis k on side s"""
        o, e = self.origin[k], self.extent[k]
        return o - depth if s < 0 else o + e - 1 + depth

    def interior(self, k, s, depth):
        return self.beyond(k, s, 1 - depth)

    def source(self, direction, sx, sy, a, b):
        if direction == "x":
            return self.beyond(0, sx, b), self.interior(1, sy, a + n_shared(self.dims[1]))
        return self.interior(0, sx, b + n_shared(self.dims[0])), self.beyond(1, sy, a)

    def fill(self, direction):
        self.vc.mod("_corners").fill_scalar_corners(self.q, direction, self.part, self.rank, self.n)

    def levels(self):
        """a generic index of the other axes, in the compute domain"""
        for k in self.vc.indices(self.extent[2:], "z"):
            yield tuple(o + i for o, i in zip(self.origin[2:], k))


def corner(vc, dims, direction, corner, touch, narrow=False):
    sx, sy = corner
    S = Setup(vc, dims, narrow=[(0, -sx), (1, -sy)] if narrow else ())
    if narrow:  # the other sides touch no corner of the tile and need no halo
        vc.assume(S.lx > 1)
        vc.assume(S.ly > 1)
    vc.assume(S.touches(sx, sy) if touch else vc.any([not_(vc, S.touches(sx, sy))]))
    S.fill(direction)
    for a, b in vc.indices((S.n, S.n), "depth"):
        a, b = a + 1, b + 1
        for z in S.levels():
            at = (S.beyond(0, sx, a), S.beyond(1, sy, b)) + z
            want = S.source(direction, sx, sy, a, b) + z if touch else at
            vc.prove_eq(vc.at(S.q.data, at), vc.at(S.before, want),
                        "corner point continues the stencil around the corner" if touch else
                        "corners that are not tile corners are untouched")


def not_(vc, c):
    return vc.implies(c, False)


def rest(vc, dims, direction):
    """whatever the rank, only points of corner blocks change"""
    S = Setup(vc, dims)
    S.fill(direction)
    for p in vc.indices(S.shape):
        in_x = [S.origin[0] - S.n <= p[0], p[0] < S.origin[0]], [p[0] >= S.origin[0] + S.extent[0], p[0] < S.origin[0] + S.extent[0] + S.n]
        in_y = [S.origin[1] - S.n <= p[1], p[1] < S.origin[1]], [p[1] >= S.origin[1] + S.extent[1], p[1] < S.origin[1] + S.extent[1] + S.n]
        inside_z = [c for k in range(2, len(dims)) for c in (p[k] >= S.origin[k], p[k] < S.origin[k] + S.extent[k])]
        block = vc.any([vc.all(x + y + inside_z) for x in in_x for y in in_y])
        vc.prove(vc.any([block, vc.eq(vc.at(S.q.data, p), vc.at(S.before, p))]), "only corner blocks change")
    vc.prove_shape(S.q.extent, S.extent, "extent unchanged")
    vc.prove_shape(S.q.origin, S.origin, "origin unchanged")


def refused(vc, dims):
    S = Setup(vc, dims)
    Q = vc.mod("quantity").Quantity
    what = vc.choice("what", ["direction", "order", "first", "second"])
    fill = vc.mod("_corners").fill_scalar_corners
    if what == "direction":
        q = S.q
        bad = vc.choice("bad", ["z", "xy", "", None])
        vc.expect_raises(TypeError, lambda: fill(q, bad, S.part, S.rank, S.n), "an unknown direction is refused")
    else:
        other = {"order": dims[1::-1] + dims[2:], "first": (Z,) + dims[1:2] + ("xland_interface",) * (len(dims) - 2),
                 "second": dims[:1] + ("xland_interface",) + dims[2:]}[what]
        q = Q(S.q.data, dims=other, units="m", origin=S.origin, extent=S.extent)
        d = vc.choice("direction", ["x", "y"])
        vc.expect_raises(ValueError, lambda: fill(q, d, S.part, S.rank, S.n), "other dimension orders are refused")
    for p in vc.indices(S.shape):
        vc.prove_eq(vc.at(S.q.data, p), vc.at(S.before, p), "a refused call changes nothing")


def history(vc, direction):
    """filling for the other direction first makes no difference; filling twice neither"""
    S = Setup(vc, (XI, Y))
    sx, sy = vc.choice("corner", CORNER_AT)
    vc.assume(S.touches(sx, sy))
    S.fill(vc.choice("earlier", ["x", "y"]))
    S.fill(direction)
    for a, b in vc.indices((S.n, S.n), "depth"):
        at = S.beyond(0, sx, a + 1), S.beyond(1, sy, b + 1)
        vc.prove_eq(vc.at(S.q.data, at), vc.at(S.before, S.source(direction, sx, sy, a + 1, b + 1)),
                    "corner filling does not depend on earlier fillings")


def another(vc, direction, dims, first):
    """another quantity of the same shape, on other points, was filled before"""
    S = Setup(vc, dims)
    for k in range(2):  # the other one needs its shared edge, too
        vc.assume(S.extent[k] > S.n)
    other = vc.mod("quantity").Quantity(vc.array("other", S.shape), dims=first, units="m", origin=S.origin, extent=S.extent)
    vc.mod("_corners").fill_scalar_corners(other, direction, S.part, S.rank, S.n)
    sx, sy = vc.choice("corner", CORNER_AT)
    vc.assume(S.touches(sx, sy))
    S.fill(direction)
    for a, b in vc.indices((S.n, S.n), "depth"):
        at = S.beyond(0, sx, a + 1), S.beyond(1, sy, b + 1)
        vc.prove_eq(vc.at(S.q.data, at), vc.at(S.before, S.source(direction, sx, sy, a + 1, b + 1)),
                    "corner filling does not depend on other quantities")
