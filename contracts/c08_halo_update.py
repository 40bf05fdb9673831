"""C08: after a halo update the halo holds what the true neighbours have there."""
from .ghost_mpi import *

SQUARE = [  # both horizontal dimensions centred, or both interface
    (Y, X), (X, Y), (Z, Y, X), (Y, X, Z), (X, Y, Z), (Y, Z, X), (YI, XI), (XI, YI, Z),
    (ZI, YI, XI), (X, ZS, Y), ("xland_interface", Z, Y, X), (X, Z, ZI, Y),
]
STAGGERED = [(YI, X), (Y, XI), (Z, YI, X), (XI, Z, Y)]


def units(tier):
    u = [
        ("halo_value", dict(dims=d, bt=bt, r=r))
        for r, ds in ((0, SQUARE + STAGGERED), (1, SQUARE), (3, SQUARE))
        for d in ds
        for bt in ALL
    ]
    u += [("frame", dict(dims=(Y, X), mask=k)) for k in range(16)]
    u += [
        ("frame", dict(dims=d, mask=k))
        for d in [(X, Y), (Z, Y, X), (Y, X, Z), (YI, X), (XI, YI), (Z, YI, XI)]
        for k in (0, 6, 15)
    ]
    u += [("whole_cube", dict(dims=d)) for d in [(Y, X), (X, Y), (Z, Y, X), (YI, XI), (X, Z, Y), (YI, Z, XI)]]
    return typed(u)


def cells_and_extent(vc, dims, r):
    """width n >= 1, cells per rank my, mx >= n, and the extents; square when the axes
    are exchanged"""
    n = vc.int("n_points", 1)
    my = n + vc.int("more_y", 0)
    mx = my if r % 2 else n + vc.int("more_x", 0)
    size = []
    for k, d in enumerate(dims):
        if d in YD:
            size.append(my + n_shared(d))
        elif d in XD:
            size.append(mx + n_shared(d))
        else:
            size.append(vc.int("nz_%d" % k, 1))
    return n, my, mx, tuple(size)


def pads(vc, ndim, tag):
    return (
        [vc.int("a%s_%d" % (tag, k), 0) for k in range(ndim)],
        [vc.int("b%s_%d" % (tag, k), 0) for k in range(ndim)],
    )


def padded(vc, name, dims, extent, n, tag, pad=None, dtype="float64"):
    """a quantity with at least n halo points on both sides of the horizontal dims"""
    lo = [n if d in HORIZ else 0 for d in dims]
    pad = pad or pads(vc, len(dims), tag)
    origin = tuple(l + p for l, p in zip(lo, pad[0]))
    after = tuple(l + p for l, p in zip(lo, pad[1]))
    shape = tuple(o + e + b for o, e, b in zip(origin, extent, after))
    data = vc.array(name, shape, dtype)
    q = vc.mod("quantity").Quantity(data, dims=dims, units="m", origin=origin, extent=extent)
    return q, data


def halo_block(dims, origin, extent, n, bt):
    out = []
    for d, o, e in zip(dims, origin, extent):
        s = STEP[bt][0] if d in YD else STEP[bt][1] if d in XD else 0
        out.append((o, o + e) if s == 0 else (o - n, o) if s < 0 else (o + e, o + e + n))
    return out


def rotation(vc, bt, r):
    """boundaries report edge rotations exactly, corner rotations modulo 4 (C04)"""
    if bt in CORNERS:
        return r + 4 * vc.int("turns", -1, 1)
    return r


def halo_value(vc, dims, bt, r, dtype):
    n, my, mx, extent = cells_and_extent(vc, dims, r)
    late, blocking = vc.choice("schedule", [(True, False), (False, True)])
    qa, A = padded(vc, "A", dims, extent, n, "a", dtype=dtype)
    other = vc.process()
    qb, B = padded(other, "B", dims, extent, n, "b", dtype=dtype)
    B0 = snapshot(vc, B)
    C = vc.mod("communicator").CubedSphereCommunicator
    back = opposite(bt, r)
    rot = rotation(vc, bt, r)
    nb = OTHER[bt]
    # the neighbour's side: the boundary back to A has the opposite rotation
    to_b = dict(FAR)
    to_b[back] = A_RANK
    comm_b = GhostComm(vc, nb, 54, late, arbitrary(vc, "b"))
    cube_b = other.mod("communicator").CubedSphereCommunicator(
        comm_b, cube_partitioner(other, boundaries_of(other, nb, to_b, {back: -rot}))
    )
    request_b = cube_b.start_halo_update(qb, n)
    if late:
        request_b.wait()
    mine = [m for m in comm_b.sent if m.dest == A_RANK]
    vc.prove(len(mine) == 1, "exactly one message per boundary")
    rest = arbitrary(vc, "a")

    def deliver(source, tag, buf):
        if source == nb:
            vc.prove(tag == mine[0].tag, "sender and receiver use the same tag")
            fill(vc, buf, mine[0].buf)
        else:
            rest(source, tag, buf)

    comm_a = GhostComm(vc, A_RANK, 54, late, deliver)
    cube_a = C(comm_a, cube_partitioner(vc, boundaries_of(vc, A_RANK, OTHER, {bt: rot})))
    if blocking:
        cube_a.halo_update(qa, n)
    else:
        cube_a.start_halo_update(qa, n).wait()
    oa, ob = qa.origin, qb.origin
    block = halo_block(dims, oa, extent, n, bt)
    for k in vc.indices([b - a for a, b in block]):
        p = tuple(a + i for (a, b), i in zip(block, k))
        y2, x2 = place((my, mx), dims, p, oa, bt, r)
        q = index_at(dims, p, oa, ob, y2, x2)
        vc.prove_eq(vc.at(A, p), vc.at(B0, q), "halo value is the neighbour's value at the same place")


def frame(vc, dims, mask, dtype):
    """everything outside of the halo blocks that have a neighbour is unchanged"""
    n, my, mx, extent = cells_and_extent(vc, dims, 0)
    corners = [bt for k, bt in enumerate(CORNERS) if mask >> k & 1]
    qa, A = padded(vc, "A", dims, extent, n, "a", dtype=dtype)
    A0 = snapshot(vc, A)
    to = {bt: OTHER[bt] for bt in ALL if bt in EDGES or bt in corners}
    comm = GhostComm(vc, A_RANK, 54, vc.bool("late"), arbitrary(vc, "a"))
    cube = vc.mod("communicator").CubedSphereCommunicator(
        comm, cube_partitioner(vc, boundaries_of(vc, A_RANK, to, {}))
    )
    cube.halo_update(qa, n)
    blocks = [halo_block(dims, qa.origin, extent, n, bt) for bt in to]
    for p in vc.indices(A.shape):
        if all(inside(p, b) is None for b in blocks):
            vc.prove_eq(vc.at(A, p), vc.at(A0, p), "nothing but the halo blocks with a neighbour changes")


# ---- labelled bounded stand-in: all ranks of a whole cube, lock-step, real partitioner


class Network:
    def __init__(self):
        self.queue = {}

    def comm(self, vc, rank, size, late):
        net = self

        class C(GhostComm):
            def Isend(self, buf, dest, tag=0):
                req = GhostComm.Isend(self, buf, dest, tag)
                net.queue.setdefault((self._rank, dest, tag), []).append(self.sent[-1])
                return req

        def deliver(source, tag, buf):
            q = net.queue.get((source, rank, tag), [])
            vc.prove(len(q) > 0, "every receive finds its message")
            fill(vc, buf, q.pop(0).buf)

        return C(vc, rank, size, late, deliver)


def cube_setup(vc, dims, n_quantities=1):
    import random

    L = vc.int("layout", 1, 3)
    m = vc.int("m", 1, 4)
    n = vc.int("n_points", 1, 3)
    vc.assume(n <= m)
    late = vc.bool("late")
    P = vc.mod("partitioner")
    part = P.CubedSpherePartitioner(P.TilePartitioner((L, L)))
    return L, m, n, late, part


def whole_cube(vc, dims, dtype):
    L, m, n, late, part = cube_setup(vc, dims)
    C = vc.mod("communicator").CubedSphereCommunicator
    net = Network()
    extent = tuple(m + n_shared(d) if d in HORIZ else 2 for d in dims)
    ranks = range(6 * L * L)
    qs, before, cubes = [], [], []
    for rank in ranks:
        q, data = padded(vc, "A%d" % rank, dims, extent, n, str(rank), dtype=dtype)
        qs.append(q)
        before.append(data.copy())
        cubes.append(C(net.comm(vc, rank, len(ranks), late), part))
    reqs = [c.start_halo_update(q, n) for c, q in zip(cubes, qs)]
    for req in reqs:
        req.wait()
    vc.prove(all(not q for q in net.queue.values()), "every message is received")
    for rank in ranks:
        t, j, i = rank // (L * L), rank % (L * L) // L, rank % L
        blocks = {}
        for bt in ALL:
            nbr = cube_neighbour(L, t, j, i, bt)
            if nbr is not None:
                blocks[bt] = (nbr, halo_block(dims, qs[rank].origin, extent, n, bt))
        for p in vc.indices(qs[rank].data.shape):
            want = before[rank][p]
            for bt, ((t2, j2, i2, r), block) in blocks.items():
                if inside(p, block) is not None:
                    src = t2 * L * L + j2 * L + i2
                    y2, x2 = place((m, m), dims, p, qs[rank].origin, bt, r)
                    want = before[src][index_at(dims, p, qs[rank].origin, qs[src].origin, y2, x2)]
            vc.prove_eq(qs[rank].data[p], want, "whole cube: halo values and frame")


whole_cube.mode = "bounded"
whole_cube.runs = 12
