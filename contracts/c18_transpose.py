"""C18: transposing a quantity only renames the axes."""
import itertools

from .common import *

BASE = [(X,), (Y, X), (XI, Y), (Z, Y, X), (YI, ZI, XI), (X, ZS, Y), ("xland_interface", Z, YI, X)]
FAMILY = {X: (X, XI), XI: (X, XI), Y: (Y, YI), YI: (Y, YI), Z: (Z, ZI), ZI: (Z, ZI)}
ASSUMPTIONS = ["dimension names are compared only for equality (names of the package's constants and two others)"]


def units(tier):
    u = []
    for dims in BASE:
        perms = list(itertools.permutations(range(len(dims))))
        if len(dims) == 4 and tier != "thorough":
            perms = perms[1::3]
        for p in perms:
            for spelling in ("names", "families", "mixed"):
                u.append(("transpose", dict(dims=dims, order=p, spelling=spelling)))
    u += [("chain", dict(dims=d)) for d in BASE[1:6]]
    u += [("refused", dict(dims=d)) for d in BASE[1:]]
    u += [("dtype_and_units", dict(dtype=t)) for t in ("float32", "int32", "int64")]
    return u


def target_of(vc, dims, spelling):
    """the dimensions given by name or by a family of names in some container"""
    out = []
    for n, d in enumerate(dims):
        if d not in FAMILY or spelling == "names" or (spelling == "mixed" and n % 2):
            out.append(d)
        else:
            f = FAMILY[d]
            out.append({0: tuple(f), 1: list(f), 2: (x for x in f[::-1])}[(n + (spelling == "mixed")) % 3])
    return tuple(out) if len(out) % 2 else out


def same_values(vc, t, data, before, order, label):
    """t[k0, k1, ..] is the value of data at the point with those coordinates by name"""
    inverse = [order.index(k) for k in range(len(order))]
    for p in vc.indices(data.shape):
        vc.prove_eq(vc.at(t, tuple(p[o] for o in order)), vc.at(before, p), label)
    return inverse


def check_transposed(vc, t, q, box, order, units):
    pick = lambda s: tuple(s[o] for o in order)
    vc.prove(t.dims == pick(box.dims), "dimension names in the target order")
    vc.prove_shape(t.extent, pick(box.extent), "extent of each named dimension")
    vc.prove_shape(t.origin, pick(box.origin), "origin of each named dimension")
    vc.prove_shape(t.data.shape, pick(box.shape), "length of each named dimension")
    vc.prove(t.units == units, "units are kept")
    vc.prove(t.data.dtype == q.data.dtype, "type is kept")
    before = snapshot(vc, q.data)
    same_values(vc, t.data, q.data, before, order, "value at the same named coordinates")
    vc.prove_shape(t.view[:].shape, pick(box.extent), "compute domain of the transposed quantity")
    for k in vc.indices(box.extent):
        vc.prove_eq(vc.at(t.view[:], pick(k)), vc.at(before, [a + b for a, b in zip(box.origin, k)]),
                    "compute domain at the same named coordinates")
    # the same memory, both ways
    new = vc.array("new_t", t.data.shape, q.data.dtype)
    t.data[...] = new
    for p in vc.indices(q.data.shape):
        vc.prove_eq(vc.at(q.data, p), vc.at(new, pick(p)), "writing to the transposed quantity writes the original")
    new = vc.array("new_q", q.data.shape, q.data.dtype)
    q.data[...] = new
    for p in vc.indices(q.data.shape):
        vc.prove_eq(vc.at(t.data, pick(p)), vc.at(new, p), "writing to the original writes the transposed quantity")
    # the original keeps its own description
    vc.prove(q.dims == box.dims and q.units == units, "the original keeps its names")
    vc.prove_shape(q.extent, box.extent, "the original keeps its extent")
    vc.prove_shape(q.origin, box.origin, "the original keeps its origin")
    vc.prove_shape(q.data.shape, box.shape, "the original keeps its shape")


def transpose(vc, dims, order, spelling):
    box = Box(vc, dims)
    q = box.quantity(vc, units="degK")
    target = [dims[o] for o in order]
    t = q.transpose(target_of(vc, target, spelling))
    check_transposed(vc, t, q, box, order, "degK")
    back = t.transpose(target_of(vc, dims, spelling))
    check_transposed(vc, back, q, box, tuple(range(len(dims))), "degK")


def chain(vc, dims):
    """two transpositions in a row are one"""
    box = Box(vc, dims)
    q = box.quantity(vc)
    n = len(dims)
    perms = list(itertools.permutations(range(n)))
    a, b = vc.choice("first", perms), vc.choice("second", perms)
    t = q.transpose([dims[o] for o in a]).transpose([dims[o] for o in b])
    check_transposed(vc, t, q, box, b, "m")


def refused(vc, dims):
    box = Box(vc, dims)
    q = box.quantity(vc)
    before = snapshot(vc, q.data)
    stagger = {X: XI, XI: X, Y: YI, YI: Y, Z: ZI, ZI: Z}
    wrong = [d for d in dims if d in stagger]
    rest = list(dims[1:])
    bad = [
        ("a name that is missing", ["other"] + rest),
        ("the other staggering", [stagger.get(d, d) for d in dims]),
        ("only one wrong staggering", [stagger[d] if d == wrong[-1] else d for d in dims]),
        ("a family with no member", [("other", "else")] + rest),
        ("an empty family", [()] + rest),
        ("an ambiguous family", [tuple(dims[:2])] + rest),
        ("an ambiguous last family", list(dims[:-1]) + [list(dims[-2:])]),
        ("too few dimensions", rest),
        ("a dimension given twice", [dims[-1]] + rest),
        ("too many dimensions", list(dims) + [dims[0]]),
        ("no dimensions", []),
    ]
    why, target = vc.choice("bad", bad)
    vc.expect_raises(ValueError, lambda: q.transpose(target), "refused: " + why)
    vc.prove(q.dims == box.dims, "a refused transposition keeps the names")
    vc.prove_shape(q.data.shape, box.shape, "a refused transposition keeps the shape")
    for p in vc.indices(q.data.shape):
        vc.prove_eq(vc.at(q.data, p), vc.at(before, p), "a refused transposition keeps the data")


def dtype_and_units(vc, dtype):
    box = Box(vc, (Z, YI, X))
    q = box.quantity(vc, dtype=dtype, units="")
    check_transposed(vc, q.transpose([X, Z, YI]), q, box, (2, 0, 1), "")
