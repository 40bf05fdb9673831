"""C05: the tile partitioner's neighbours are doubly periodic."""
from .spec import *

OPTS = dict(large=True)


def units(tier):
    return [("neighbour", dict(bt=bt)) for bt in ALL] + [("stable", dict(bt=bt)) for bt in ALL]


def _setup(vc):
    ly, lx = vc.int("ly", 1), vc.int("lx", 1)
    j, i = vc.int("j", 0, ly - 1), vc.int("i", 0, lx - 1)
    return ly, lx, j, i, j * lx + i, vc.mod("partitioner").TilePartitioner((ly, lx))


def _wrap(k, d, n):
    k = k + d
    if k < 0:
        return n - 1
    if k >= n:
        return 0
    return k


def _check(vc, b, ly, lx, j, i, bt, what=""):
    dy, dx = STEP[bt]
    vc.prove(b is not None, "a boundary always exists" + what)
    vc.prove(b.to_rank == _wrap(j, dy, ly) * lx + _wrap(i, dx, lx), "neighbour with wrap-around" + what)
    vc.prove(b.from_rank == j * lx + i, "from_rank is the asking rank" + what)
    vc.prove(b.boundary_type == bt, "boundary type" + what)
    vc.prove(b.n_clockwise_rotations % 4 == 0, "no rotation" + what)


def neighbour(vc, bt):
    ly, lx, j, i, rank, tile = _setup(vc)
    _check(vc, tile.boundary(bt, rank), ly, lx, j, i, bt)


def stable(vc, bt):
    ly, lx, j, i, rank, tile = _setup(vc)
    for bt1 in (bt, WEST, NORTH):
        b = tile.boundary(bt1, rank)
        b.to_rank, b.from_rank, b.n_clockwise_rotations = b.to_rank + 1, b.from_rank + 2, 1
        b.boundary_type = (bt1 + 1) % 8
    _check(vc, tile.boundary(bt, rank), ly, lx, j, i, bt, " (again)")
