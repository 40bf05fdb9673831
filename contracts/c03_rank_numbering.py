"""C03: ranks are numbered tile-major, then row-major."""
from .spec import *

OPTS = dict(large=True)


def units(tier):
    return [
        ("numbering", {}), ("bijection", {}), ("tile_numbering", {}), ("divisible_by_six", {}),
        ("from_namelist", {}),
    ]


def _cube(vc):
    ly, lx = vc.int("ly", 1), vc.int("lx", 1)
    P = vc.mod("partitioner")
    tile = P.TilePartitioner((ly, lx))
    return P, ly, lx, tile, P.CubedSpherePartitioner(tile)


def numbering(vc):
    P, ly, lx, tile, cube = _cube(vc)
    t, j, i = vc.int("t", 0, 5), vc.int("j", 0, ly - 1), vc.int("i", 0, lx - 1)
    n = ly * lx
    rank = t * n + j * lx + i
    vc.prove(tile.total_ranks == n, "ranks per tile")
    vc.prove(cube.total_ranks == 6 * n, "total ranks")
    vc.prove_shape(cube.layout, (ly, lx), "layout")
    vc.prove(cube.tile_index(rank) == t, "tile index")
    vc.prove(P.get_tile_index(rank, 6 * n) == t, "get_tile_index")
    vc.prove(P.get_tile_number(rank, 6 * n) == t + 1, "get_tile_number")
    vc.prove(cube.tile_root_rank(rank) == t * n, "tile root rank")
    # the position does not depend on whether the rank is global or within the tile
    for r in (rank, j * lx + i):
        vc.prove_shape(tile.subtile_index(r), (j, i), "position on the tile")
        vc.prove(bool(tile.on_tile_bottom(r)) == bool(j == 0), "on_tile_bottom")
        vc.prove(bool(tile.on_tile_top(r)) == bool(j == ly - 1), "on_tile_top")
        vc.prove(bool(tile.on_tile_left(r)) == bool(i == 0), "on_tile_left")
        vc.prove(bool(tile.on_tile_right(r)) == bool(i == lx - 1), "on_tile_right")


def bijection(vc):
    """every rank has a position in range, and the position determines the rank"""
    P, ly, lx, tile, cube = _cube(vc)
    n = ly * lx
    rank = vc.int("rank", 0, 6 * n - 1)
    t = cube.tile_index(rank)
    j, i = tile.subtile_index(rank)
    vc.prove(vc.all([t >= 0, t <= 5]), "tile index in range")
    vc.prove(vc.all([j >= 0, j < ly]), "y position in range")
    vc.prove(vc.all([i >= 0, i < lx]), "x position in range")
    vc.prove(t * n + j * lx + i == rank, "the position determines the rank")


def tile_numbering(vc):
    ly, lx = vc.int("ly", 1), vc.int("lx", 1)
    tile = vc.mod("partitioner").TilePartitioner((ly, lx))
    rank = vc.int("rank", 0, ly * lx - 1)
    j, i = tile.subtile_index(rank)
    vc.prove(vc.all([j >= 0, j < ly, i >= 0, i < lx]), "position in range")
    vc.prove(j * lx + i == rank, "row-major")


def divisible_by_six(vc):
    P = vc.mod("partitioner")
    k, r = vc.int("k", 0), vc.int("r", 1, 5)
    rank = vc.int("rank", 0, small=40)
    for f in (P.get_tile_index, P.get_tile_number):
        vc.expect_raises(ValueError, lambda: f(rank, 6 * k + r), "total ranks must be divisible by 6")


def from_namelist(vc):
    P = vc.mod("partitioner")
    ly, lx = vc.int("ly", 1), vc.int("lx", 1)
    nml = {"fv_core_nml": {"layout": [ly, lx], "npx": 49, "npy": 49, "npz": 79}}
    vc.prove_shape(P.TilePartitioner.from_namelist(nml).layout, (ly, lx), "layout of the namelist")
    vc.prove_shape(P.CubedSpherePartitioner.from_namelist(nml).layout, (ly, lx), "layout of the namelist")
