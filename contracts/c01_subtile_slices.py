"""C01: subtile slices partition the tile / the cube."""
from .spec import *

OPTS = dict(large=True)


def units(tier):
    u = []
    for d in dims_for(tier):
        u.append(("tile_slice", dict(dims=d)))
        u.append(("cube_slice", dict(dims=d)))
    u += [("tile_slice_degenerate", dict(dims=d)) for d in [(Y, X), (YI, XI)]]
    return u


def _setup(vc, dims):
    ly, lx = vc.int("ly", 1), vc.int("lx", 1)
    m = cells(vc, dims)
    j, i = vc.int("j", 0, ly - 1), vc.int("i", 0, lx - 1)
    ext = [mm * factor(d, ly, lx) + n_shared(d) for d, mm in zip(dims, m)]
    return ly, lx, m, j, i, ext


def _check(vc, dims, ly, lx, m, j, i, ext, sl, sl_over, sub):
    vc.prove(len(sl) == len(dims) and len(sl_over) == len(dims) and len(sub) == len(dims),
             "one slice per dimension")
    for d, mm, n, s, so, e in zip(dims, m, ext, sl, sl_over, sub):
        l, k = factor(d, ly, lx), pos(d, j, i)
        vc.prove(s.step is None or s.step == 1, "slices have unit step")
        vc.prove(so.step is None or so.step == 1, "slices have unit step")
        # the subtile extent is the overlapping region
        vc.prove(so.stop - so.start == e, "overlapping slice has the subtile extent")
        vc.prove(e == mm + n_shared(d), "subtile extent is the rank's cells plus the shared point")
        # ownership: global point p = q*mm + r belongs to the rank at position
        # min(q, l-1): exactly one rank along this dimension
        q, r = vc.int("q_" + d, 0), vc.int("r_" + d, 0, mm - 1)
        p = q * mm + r
        vc.assume(p < n)
        inside = vc.all([s.start <= p, p < s.stop])
        if q >= l:  # the far interface point
            owner = l - 1
        else:
            owner = q
        if k == owner:
            vc.prove(inside, "every global point is in its owner's slice")
        else:
            vc.prove(vc.any([p < s.start, p >= s.stop]), "no global point is in two slices")
        # overlapping: own points plus exactly the one shared interface point
        over = vc.all([so.start <= p, p < so.stop])
        if k == owner or (is_interface(d) and r == 0 and q == k + 1):
            vc.prove(over, "overlapping slices include owned and shared points")
        else:
            vc.prove(vc.any([p < so.start, p >= so.stop]), "overlapping slices share only interface points")
        vc.prove(vc.all([s.start >= 0, s.stop <= n, so.start >= 0, so.stop <= n]),
                 "slices stay inside the global domain")


def tile_slice(vc, dims):
    ly, lx, m, j, i, ext = _setup(vc, dims)
    P = vc.mod("partitioner")
    tile = P.TilePartitioner((ly, lx))
    rank = j * lx + i
    sl = tile.subtile_slice(rank, dims, ext, overlap=False)
    so = tile.subtile_slice(rank, dims, ext, overlap=True)
    sub = tile.subtile_extent(metadata(vc, dims, ext))
    _check(vc, dims, ly, lx, m, j, i, ext, sl, so, sub)
    default = tile.subtile_slice(rank, dims, ext)
    for a, b in zip(default, sl):
        vc.prove(vc.all([a.start == b.start, a.stop == b.stop]), "overlap defaults to off")


def cube_slice(vc, dims):
    ly, lx, m, j, i, ext = _setup(vc, dims)
    t = vc.int("t", 0, 5)
    P = vc.mod("partitioner")
    cube = P.CubedSpherePartitioner(P.TilePartitioner((ly, lx)))
    rank = t * ly * lx + j * lx + i
    gdims, gext = (TILE,) + tuple(dims), [6] + ext
    sl = cube.subtile_slice(rank, gdims, gext, overlap=False)
    so = cube.subtile_slice(rank, gdims, gext, overlap=True)
    sub = cube.subtile_extent(metadata(vc, gdims, gext))
    vc.prove(sl[0] == t, "the slice selects the rank's own tile")
    vc.prove(so[0] == t, "the slice selects the rank's own tile")
    _check(vc, dims, ly, lx, m, j, i, ext, sl[1:], so[1:], sub)


def tile_slice_degenerate(vc, dims):
    """one rank per tile: the slice is the whole tile"""
    m = cells(vc, dims)
    P = vc.mod("partitioner")
    tile = P.TilePartitioner((1, 1))
    ext = [mm + n_shared(d) for d, mm in zip(dims, m)]
    for over in (False, True):
        sl = tile.subtile_slice(0, dims, ext, overlap=over)
        for s, n in zip(sl, ext):
            vc.prove(vc.all([s.start == 0, s.stop == n]), "a single rank owns everything")


tile_slice.samples = [
    dict(ly=49, lx=98, m_y=1, m_x=1, m_y_interface=1, m_x_interface=1, j=48, i=97),
    dict(ly=103, lx=107, m_y=1, m_x=1, m_y_interface=1, m_x_interface=1, j=1, i=2),
]
