"""C04: cubed-sphere neighbours are those of the folded cube."""
from .spec import *

OPTS = dict(large=True)


def units(tier):
    u = [("neighbour", dict(t=t, bt=bt)) for t in range(6) for bt in ALL]
    u += [("mutual", dict(t=t, bt=bt)) for t in range(6) for bt in ALL]
    u += [("distinct", dict(t=t, bt=bt)) for t in range(6) for bt in ALL]
    u += [("stable", dict(t=t, bt=bt)) for t in range(6) for bt in ALL]
    u += [("square_only", dict(bt=bt)) for bt in ALL]
    return u


def _setup(vc, t):
    n = vc.int("n", 1)
    j, i = vc.int("j", 0, n - 1), vc.int("i", 0, n - 1)
    P = vc.mod("partitioner")
    tile = P.TilePartitioner((n, n))
    return n, j, i, t * n * n + j * n + i, P, tile, P.CubedSpherePartitioner(tile)


def _check(vc, b, n, t, j, i, bt, rank, what=""):
    want = cube_neighbour(n, t, j, i, bt)
    if want is None:
        vc.prove(b is None, "no boundary at a cube corner" + what)
        return None
    vc.prove(b is not None, "a boundary exists away from cube corners" + what)
    t2, j2, i2, r = want
    vc.prove(b.to_rank == t2 * n * n + j2 * n + i2, "neighbour rank of the folded cube" + what)
    vc.prove(b.from_rank == rank, "from_rank is the asking rank" + what)
    vc.prove(b.boundary_type == bt, "boundary type" + what)
    if bt in EDGES:
        vc.prove(b.n_clockwise_rotations == r, "rotations of the folded cube" + what)
    else:
        vc.prove(b.n_clockwise_rotations % 4 == r, "rotations of the folded cube" + what)
    return want


def neighbour(vc, t, bt):
    n, j, i, rank, P, tile, cube = _setup(vc, t)
    _check(vc, cube.boundary(bt, rank), n, t, j, i, bt, rank)


def mutual(vc, t, bt):
    """the neighbour has a boundary back to this rank, with the opposite rotation"""
    n, j, i, rank, P, tile, cube = _setup(vc, t)
    b = cube.boundary(bt, rank)
    if b is None:
        vc.prove(cube_neighbour(n, t, j, i, bt) is None, "no boundary at a cube corner")
        return
    dy, dx = STEP[bt]
    r = b.n_clockwise_rotations % 4
    back_type = BY_STEP[tuple(-a for a in step_turn(vc.concrete(r), dy, dx))]
    back = cube.boundary(back_type, b.to_rank)
    vc.prove(back is not None, "neighbourhood is mutual")
    vc.prove(back.to_rank == rank, "neighbourhood is mutual")
    vc.prove((back.n_clockwise_rotations + r) % 4 == 0, "opposite rotation on the way back")


def distinct(vc, t, bt):
    """different boundaries of a rank lead to different ranks, none of them itself"""
    n, j, i, rank, P, tile, cube = _setup(vc, t)
    b = cube.boundary(bt, rank)
    if b is None:
        vc.prove(bt in CORNERS, "only corners may be missing")
        return
    vc.prove(b.to_rank != rank, "a rank is not its own neighbour")
    for other in ALL:
        if other > bt:
            o = cube.boundary(other, rank)
            if o is not None:
                vc.prove(b.to_rank != o.to_rank, "boundaries lead to different ranks")


def stable(vc, t, bt):
    """queries and changes to returned objects never influence later answers"""
    n, j, i, rank, P, tile, cube = _setup(vc, t)
    for bt1 in (bt,) + EDGES:
        b = cube.boundary(bt1, rank)
        p = tile.boundary(bt1, rank)
        for x in (b, p):
            if x is not None:
                x.to_rank, x.from_rank = x.to_rank + 1, x.from_rank + 2
                x.n_clockwise_rotations = x.n_clockwise_rotations + 1
                x.boundary_type = (bt1 + 1) % 8
    _check(vc, cube.boundary(bt, rank), n, t, j, i, bt, rank, " (again)")
    other = P.CubedSpherePartitioner(tile)
    _check(vc, other.boundary(bt, rank), n, t, j, i, bt, rank, " (shared tile partitioner)")
    # the same boundary of the tile rank in a plain tile
    k = j * n + i
    p = tile.boundary(bt, k)
    dy, dx = STEP[bt]
    vc.prove(p.to_rank == ((j + dy) % n) * n + (i + dx) % n, "the tile partitioner is not disturbed")


def square_only(vc, bt):
    ly, lx = vc.int("ly", 1), vc.int("lx", 1)
    vc.assume(ly != lx)
    t, j, i = vc.int("t", 0, 5), vc.int("j", 0, ly - 1), vc.int("i", 0, lx - 1)
    P = vc.mod("partitioner")
    cube = P.CubedSpherePartitioner(P.TilePartitioner((ly, lx)))
    if bt in EDGES:
        vc.expect_raises(
            NotImplementedError, lambda: cube.boundary(bt, t * ly * lx + j * lx + i),
            "non-square layouts are refused",
        )
    else:
        vc.prove(True, "corner boundaries follow from edges")
