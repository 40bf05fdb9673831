"""C07: rotation of scalar and vector data is exact geometry."""
from .common import *

DIMS7 = [
    (Y, X), (X, Y), (YI, X), (XI, YI), (Z, Y, X), (Y, Z, X), (X, ZI, Y), (X, Y, Z), (ZI, XI, Y),
    (Y, Z, ZS, X), (Z, X, ZS, YI), ("xland_interface", ZS, Y, X),
    (X,), (XI,), (Y,), (YI,), (X, Z), (Z, YI), (Z, X, "xland_interface"), (Z,), (ZI, ZS),
]


def units(tier):
    u = [("scalar", dict(dims=d)) for d in DIMS7]
    u += [("composes", dict(dims=d)) for d in DIMS7]
    u += [("vector", dict(dims=d)) for d in DIMS7]
    u += [("in_place", dict(ndim=k)) for k in (1, 2, 3)]
    return u


def moved(dims, idx, shape, k):
    """where the value at idx goes when the data are turned clockwise k times"""
    iy, ix = axis(dims, YD), axis(dims, XD)
    out = list(idx)
    if iy is not None and ix is not None:
        y, x = turn(-k, idx[iy], idx[ix], shape[iy], shape[ix])
        out[iy], out[ix] = y, x
    elif iy is not None or ix is not None:
        a = iy if iy is not None else ix
        dy, dx = step_turn(-k, *((1, 0) if iy is not None else (0, 1)))
        if dy + dx < 0:  # the line now points backwards along its new axis
            out[a] = shape[a] - 1 - idx[a]
    return tuple(out)


def new_shape(dims, shape, k):
    iy, ix = axis(dims, YD), axis(dims, XD)
    out = list(shape)
    if k % 2 and iy is not None and ix is not None:
        out[iy], out[ix] = out[ix], out[iy]
    return tuple(out)


def new_dims(dims, k):
    """a single horizontal axis becomes the other one after an odd number of turns"""
    iy, ix = axis(dims, YD), axis(dims, XD)
    swap = {X: Y, Y: X, XI: YI, YI: XI}
    if k % 2 and (iy is None) != (ix is None):
        return tuple(swap.get(d, d) for d in dims)
    return dims


def _count(vc, name="k"):
    k = vc.int(name)
    return k, vc.concrete(k % 4)


def _data(vc, dims, name="data"):
    shape = tuple(vc.int("n_%d" % i, 1) for i in range(len(dims)))
    return shape, vc.array(name, shape)


def scalar(vc, dims):
    shape, data = _data(vc, dims)
    k, r = _count(vc)
    before = snapshot(vc, data)
    out = vc.mod("rotate").rotate_scalar_data(data, dims, vc.np, k)
    vc.prove_shape(out.shape, new_shape(dims, shape, r), "shape of the rotated data")
    for p in vc.indices(shape):
        vc.prove_eq(vc.at(out, moved(dims, p, shape, r)), vc.at(before, p), "value moved to its rotated place")
    for p in vc.indices(shape):
        vc.prove_eq(vc.at(data, p), vc.at(before, p), "the data passed in are not modified")


def composes(vc, dims):
    shape, data = _data(vc, dims)
    rot = vc.mod("rotate").rotate_scalar_data
    k1, r1 = _count(vc, "k1")
    k2, r2 = _count(vc, "k2")
    one = rot(rot(data, dims, vc.np, k1), new_dims(dims, r1), vc.np, k2)
    two = rot(data, dims, vc.np, k1 + k2)
    vc.prove_shape(one.shape, two.shape, "rotations compose: shape")
    for p in vc.indices(two.shape):
        vc.prove_eq(vc.at(one, p), vc.at(two, p), "rotations compose")
    if (r1 + r2) % 4 == 0:
        for p in vc.indices(shape):
            vc.prove_eq(vc.at(one, p), vc.at(data, p), "full turns are the identity")


def vector(vc, dims):
    shape, x = _data(vc, dims, "xdata")
    y = vc.array("ydata", shape)
    k, r = _count(vc)
    x0, y0 = snapshot(vc, x), snapshot(vc, y)
    xo, yo = vc.mod("rotate").rotate_vector_data(x, y, k, dims, vc.np)
    vc.prove_shape(xo.shape, new_shape(dims, shape, r), "shape of the rotated component")
    vc.prove_shape(yo.shape, new_shape(dims, shape, r), "shape of the rotated component")
    for p in vc.indices(shape):
        to = moved(dims, p, shape, r)
        u, v = vc.at(x0, p), vc.at(y0, p)
        # a vector (u, v) turned clockwise once is (v, -u)
        want = [(u, v), (v, -u), (-u, -v), (-v, u)][r]
        vc.prove_eq(vc.at(xo, to), want[0], "x component turned")
        vc.prove_eq(vc.at(yo, to), want[1], "y component turned")
    for p in vc.indices(shape):
        vc.prove_eq(vc.at(x, p), vc.at(x0, p), "the data passed in are not modified")
        vc.prove_eq(vc.at(y, p), vc.at(y0, p), "the data passed in are not modified")


def in_place(vc, ndim):
    shape = tuple(vc.int("n_%d" % i, 1) for i in range(ndim))
    x, y = vc.array("xdata", shape), vc.array("ydata", shape)
    k, r = _count(vc)
    x0, y0 = snapshot(vc, x), snapshot(vc, y)
    b = vc.mod("boundary").Boundary(from_rank=0, to_rank=1, n_clockwise_rotations=k)
    b.rotate(y, x)
    for p in vc.indices(shape):
        u, v = vc.at(x0, p), vc.at(y0, p)
        want = [(u, v), (v, -u), (-u, -v), (-v, u)][r]
        vc.prove_eq(vc.at(x, p), want[0], "x component turned in place")
        vc.prove_eq(vc.at(y, p), want[1], "y component turned in place")
