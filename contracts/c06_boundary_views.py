"""C06: the views used for sending and receiving select exactly the right blocks."""
from .common import *

DIMS6 = [
    (Y, X), (YI, X), (Y, XI), (XI, YI), (Z, Y, X), (ZI, Y, X), (X, Z, YI), (XI, YI, ZI),
    (X,), (YI,), (Z,), (ZS, Z, YI, X), ("xland_interface", XI),
]


def units(tier):
    u = [("edge_view", dict(dims=d, bt=bt, interior=s)) for d in DIMS6 for bt in ALL for s in (False, True)]
    u += [("history", dict(dims=d, bt=bt, interior=s)) for d in [(YI, X)] for bt in (WEST, NORTH, SE) for s in (False, True)]
    return u


def block_of(box, bt, n, interior):
    """specification: per dimension (start, stop) of the block in array coordinates"""
    dy, dx = STEP[bt]
    out = []
    for d, o, e in zip(box.dims, box.origin, box.extent):
        s = dy if d in YD else dx if d in XD else 0
        ov = n_shared(d) if interior else 0
        if s == 0:
            out.append((o, o + e))
        elif s < 0:
            out.append((o + ov, o + ov + n) if interior else (o - n, o))
        else:
            out.append((o + e - ov - n, o + e - ov) if interior else (o + e, o + e + n))
    return out


def fits(block, shape):
    for (a, b), n in zip(block, shape):
        if a < 0 or b > n:
            return False
    return True


def _boundary(vc, bt):
    return vc.mod("boundary").SimpleBoundary(
        from_rank=0, to_rank=1, n_clockwise_rotations=0, boundary_type=bt
    )


def _check(vc, b, q, box, bt, n, interior, label):
    block = block_of(box, bt, n, interior)
    call = lambda: (b.send_view if interior else b.recv_view)(q, n_points=n)
    data = q.data
    if fits(block, box.shape):
        prove_view(vc, call(), data, block, label)
    else:
        vc.expect_raises(
            vc.mod("_exceptions").OutOfBoundsError, call, label + ": leaving the array is refused"
        )


def edge_view(vc, dims, bt, interior):
    box = Box(vc, dims)
    n = vc.int("n_points", 1)
    q = box.quantity(vc)
    b = _boundary(vc, bt)
    _check(vc, b, q, box, bt, n, interior, "send view" if interior else "receive view")


def history(vc, dims, bt, interior):
    """earlier queries for other quantities, widths and kinds do not influence the answer"""
    other, box = Box(vc, dims, "p"), Box(vc, dims)
    n0, n = vc.int("n0", 1), vc.int("n_points", 1)
    q0, q = other.quantity(vc, "data0"), box.quantity(vc)
    b = _boundary(vc, bt)
    for kind in (True, False):
        if fits(block_of(other, bt, n0, kind), other.shape):
            (b.send_view if kind else b.recv_view)(q0, n_points=n0)
    _check(vc, b, q, box, bt, n, interior, "view after other queries")
