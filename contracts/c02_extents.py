"""C02: the extent of a rank and the extent of the global array are inverse."""
from .spec import *

OPTS = dict(large=True)


def units(tier):
    u = []
    for d in dims_for(tier):
        u += [("tile_extents", dict(dims=d)), ("cube_extents", dict(dims=d))]
    u += [("large_layouts", {}), ("tile_dim_required", {})]
    return u


def _ext(dims, m, ly, lx):
    rank = [mm + n_shared(d) for d, mm in zip(dims, m)]
    glob = [mm * factor(d, ly, lx) + n_shared(d) for d, mm in zip(dims, m)]
    return rank, glob


def tile_extents(vc, dims):
    ly, lx = vc.int("ly", 1), vc.int("lx", 1)
    m = cells(vc, dims, lo=0)
    rank, glob = _ext(dims, m, ly, lx)
    tile = vc.mod("partitioner").TilePartitioner((ly, lx))
    vc.prove_shape(tile.global_extent(metadata(vc, dims, rank)), glob, "tile extent")
    sub = tile.subtile_extent(metadata(vc, dims, glob))
    vc.prove_shape(sub, rank, "rank extent")
    for x in sub:
        vc.prove(vc.is_int(x), "extents are exact integers")
    back = tile.global_extent(metadata(vc, dims, sub))
    vc.prove_shape(back, glob, "global_extent undoes subtile_extent")
    # only names and extents matter: a halo around either array changes nothing
    o = [vc.int("o_" + d, 0) for d in dims]
    vc.prove_shape(tile.global_extent(metadata(vc, dims, rank, o)), glob, "origin does not matter")
    vc.prove_shape(tile.subtile_extent(metadata(vc, dims, glob, o)), rank, "origin does not matter")


def cube_extents(vc, dims):
    ly, lx = vc.int("ly", 1), vc.int("lx", 1)
    m = cells(vc, dims, lo=0)
    rank, glob = _ext(dims, m, ly, lx)
    P = vc.mod("partitioner")
    cube = P.CubedSpherePartitioner(P.TilePartitioner((ly, lx)))
    g = cube.global_extent(metadata(vc, dims, rank))
    vc.prove_shape(g, [6] + glob, "cube extent")
    sub = cube.subtile_extent(metadata(vc, (TILE,) + tuple(dims), [6] + glob))
    vc.prove_shape(sub, rank, "rank extent")


def large_layouts(vc):
    """the smallest sizes, at every layout (float reciprocals go wrong first here)"""
    ly, lx = vc.int("ly", 1, small=200), vc.int("lx", 1, small=200)
    tile = vc.mod("partitioner").TilePartitioner((ly, lx))
    vc.prove_shape(tile.subtile_extent(metadata(vc, (Y, X), (ly, lx))), (1, 1), "one cell per rank")
    vc.prove_shape(
        tile.subtile_extent(metadata(vc, (YI, XI), (ly + 1, lx + 1))), (2, 2), "one cell per rank"
    )


large_layouts.samples = [dict(ly=49, lx=98), dict(ly=103, lx=107), dict(ly=161, lx=187)]


def tile_dim_required(vc):
    ly, lx = vc.int("ly", 1), vc.int("lx", 1)
    my, mx = vc.int("my", 1), vc.int("mx", 1)
    P = vc.mod("partitioner")
    cube = P.CubedSpherePartitioner(P.TilePartitioner((ly, lx)))
    for dims in [(Y, X), (Y, TILE, X), (Y, X, TILE), (Z, Y, X)]:
        ext = [{Y: ly * my, X: lx * mx, TILE: 6, Z: 3}[d] for d in dims]
        vc.expect_raises(
            NotImplementedError, lambda: cube.subtile_extent(metadata(vc, dims, ext)),
            "a cube array must have the tile dimension first",
        )
        vc.expect_raises(
            NotImplementedError, lambda: cube.subtile_slice(0, dims, ext),
            "a cube array must have the tile dimension first",
        )
    vc.expect_raises(
        TypeError, lambda: P.CubedSpherePartitioner(object()), "the tile argument is a tile partitioner"
    )
