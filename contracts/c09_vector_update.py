"""C09: vector halo updates bring the neighbour's vector, in this rank's axes."""
from .c08_halo_update import *

PAIRS = [
    ((Y, X), (Y, X)), ((X, Y), (X, Y)), ((YI, X), (Y, XI)), ((Y, XI), (YI, X)),
    ((YI, XI), (YI, XI)), ((Z, YI, X), (Z, Y, XI)), ((X, YI, Z), (XI, Y, Z)),
    ((Y, Z, X), (Y, Z, X)), ((YI, ZI, X), (Y, ZI, XI)),
]
MIXED = [("float64", "float32"), ("float32", "float64"), ("int64", "float64"), ("int32", "float32"),
         ("float64", "int64"), ("float32", "int32"), ("int32", "int64"), ("float64", "float32")]


def units(tier):
    u = [
        ("vector_value", dict(pair=p, bt=bt, r=r))
        for p in PAIRS for bt in ALL for r in (0, 1, 3)
    ]
    u += [
        ("vector_frame", dict(pair=p, mask=k, which=w))
        for p in PAIRS[:5] for k in (0, 6, 15) for w in (0, 1)
    ]
    u += [("whole_cube_vector", dict(pair=p)) for p in PAIRS[:6]]
    u = typed(u)
    # components of different types, where no rotation exchanges them
    u += [
        ("vector_value", dict(pair=p, bt=bt, r=0, dtype=(a, b)))
        for p, bt, (a, b) in zip(PAIRS, ALL, MIXED)
    ]
    u += [("vector_frame", dict(pair=p, mask=15, which=w, dtype=t)) for p, t in zip(PAIRS, MIXED) for w in (0, 1)]
    return u


def both(dtype):
    return dtype if isinstance(dtype, tuple) else (dtype, dtype)


def extents(vc, pair, r):
    n = vc.int("n_points", 1)
    my = n + vc.int("more_y", 0)
    mx = my if r % 2 else n + vc.int("more_x", 0)
    nz = [vc.int("nz_%d" % k, 1) for k in range(len(pair[0]))]
    out = []
    for dims in pair:
        out.append(tuple(
            my + n_shared(d) if d in YD else mx + n_shared(d) if d in XD else nz[k]
            for k, d in enumerate(dims)
        ))
    return n, my, mx, out


def vector_value(vc, pair, bt, r, dtype):
    n, my, mx, (ex, ey) = extents(vc, pair, r)
    late, blocking = vc.choice("schedule", [(True, False), (False, True)])
    dx_, dy_ = pair
    qax, AX = padded(vc, "AX", dx_, ex, n, "ax", dtype=both(dtype)[0])
    qay, AY = padded(vc, "AY", dy_, ey, n, "ay", dtype=both(dtype)[1])
    other = vc.process()
    pad = pads(vc, len(dx_), "b")
    qbx, BX = padded(other, "BX", dx_, ex, n, "b", pad, both(dtype)[0])
    qby, BY = padded(other, "BY", dy_, ey, n, "b", pad, both(dtype)[1])
    BX0, BY0 = snapshot(vc, BX), snapshot(vc, BY)
    C = vc.mod("communicator").CubedSphereCommunicator
    back = opposite(bt, r)
    rot = rotation(vc, bt, r)
    nb = OTHER[bt]
    to_b = dict(FAR)
    to_b[back] = A_RANK
    comm_b = GhostComm(vc, nb, 54, late, arbitrary(vc, "b"))
    cube_b = other.mod("communicator").CubedSphereCommunicator(
        comm_b, cube_partitioner(other, boundaries_of(other, nb, to_b, {back: -rot}))
    )
    request_b = cube_b.start_vector_halo_update(qbx, qby, n)
    if late:
        request_b.wait()
    mine = [m for m in comm_b.sent if m.dest == A_RANK]
    vc.prove(len(mine) == 2, "exactly one message per component and boundary")
    vc.prove(mine[0].tag != mine[1].tag, "the components travel under different tags")
    rest = arbitrary(vc, "a")

    def deliver(source, tag, buf):
        if source == nb:
            hits = [m for m in mine if m.tag == tag]
            vc.prove(len(hits) == 1, "sender and receiver use the same tags")
            fill(vc, buf, hits[0].buf)
        else:
            rest(source, tag, buf)

    comm_a = GhostComm(vc, A_RANK, 54, late, deliver)
    cube_a = C(comm_a, cube_partitioner(vc, boundaries_of(vc, A_RANK, OTHER, {bt: rot})))
    if blocking:
        cube_a.vector_halo_update(qax, qay, n)
    else:
        cube_a.start_vector_halo_update(qax, qay, n).wait()

    def neighbour_value(q, Q0, dims_a, p, origin_a):
        y2, x2 = place((my, mx), dims_a, p, origin_a, bt, r)
        return vc.at(Q0, index_at(q.dims, p, origin_a, q.origin, y2, x2))

    for which, qa, A in ((0, qax, AX), (1, qay, AY)):
        block = halo_block(qa.dims, qa.origin, (ex, ey)[which], n, bt)
        for k in vc.indices([b - a for a, b in block]):
            p = tuple(a + i for (a, b), i in zip(block, k))
            # the neighbour's component that points along this component's axis
            if r % 2 == 0:
                v = neighbour_value((qbx, qby)[which], (BX0, BY0)[which], qa.dims, p, qa.origin)
            else:
                v = neighbour_value((qby, qbx)[which], (BY0, BX0)[which], qa.dims, p, qa.origin)
            want = turned_value(r, v, v)[which]
            vc.prove_eq(vc.at(A, p), want, "halo vector is the neighbour's vector in this rank's axes")


def vector_frame(vc, pair, mask, which, dtype):
    n, my, mx, (ex, ey) = extents(vc, pair, 0)
    corners = [bt for k, bt in enumerate(CORNERS) if mask >> k & 1]
    pad = pads(vc, len(pair[0]), "a")
    qx, AX = padded(vc, "AX", pair[0], ex, n, "a", pad, both(dtype)[0])
    qy, AY = padded(vc, "AY", pair[1], ey, n, "a", pad, both(dtype)[1])
    X0, Y0 = snapshot(vc, AX), snapshot(vc, AY)
    to = {bt: OTHER[bt] for bt in ALL if bt in EDGES or bt in corners}
    comm = GhostComm(vc, A_RANK, 54, vc.bool("late"), arbitrary(vc, "a"))
    cube = vc.mod("communicator").CubedSphereCommunicator(
        comm, cube_partitioner(vc, boundaries_of(vc, A_RANK, to, {}))
    )
    cube.vector_halo_update(qx, qy, n)
    for q, A, A0, e in (((qx, AX, X0, ex), (qy, AY, Y0, ey))[which],):
        blocks = [halo_block(q.dims, q.origin, e, n, bt) for bt in to]
        for p in vc.indices(A.shape):
            if all(inside(p, b) is None for b in blocks):
                vc.prove_eq(vc.at(A, p), vc.at(A0, p), "nothing but the halo blocks with a neighbour changes")


def whole_cube_vector(vc, pair, dtype):
    L, m, n, late, part = cube_setup(vc, pair[0])
    C = vc.mod("communicator").CubedSphereCommunicator
    net = Network()
    ranks = range(6 * L * L)
    qs, before, cubes = [], [], []
    for rank in ranks:
        both = []
        for name, dims in zip("XY", pair):
            extent = tuple(m + n_shared(d) if d in HORIZ else 2 for d in dims)
            both.append(padded(vc, "A%s%d" % (name, rank), dims, extent, n, name + str(rank), dtype=dtype)[0])
        qs.append(both)
        before.append([q.data.copy() for q in both])
        cubes.append(C(net.comm(vc, rank, len(ranks), late), part))
    reqs = [c.start_vector_halo_update(q[0], q[1], n) for c, q in zip(cubes, qs)]
    for req in reqs:
        req.wait()
    vc.prove(all(not q for q in net.queue.values()), "every message is received")
    for rank in ranks:
        t, j, i = rank // (L * L), rank % (L * L) // L, rank % L
        for w in (0, 1):
            q = qs[rank][w]
            blocks = {}
            for bt in ALL:
                nbr = cube_neighbour(L, t, j, i, bt)
                if nbr is not None:
                    blocks[bt] = (nbr, halo_block(q.dims, q.origin, q.extent, n, bt))
            for p in vc.indices(q.data.shape):
                want = before[rank][w][p]
                for bt, ((t2, j2, i2, r), block) in blocks.items():
                    if inside(p, block) is not None:
                        src = t2 * L * L + j2 * L + i2
                        w2 = w if r % 2 == 0 else 1 - w
                        y2, x2 = place((m, m), q.dims, p, q.origin, bt, r)
                        s = qs[src][w2]
                        v = before[src][w2][index_at(s.dims, p, q.origin, s.origin, y2, x2)]
                        want = turned_value(r, v, v)[w]
                vc.prove_eq(q.data[p], want, "whole cube: halo vectors and frame")


whole_cube_vector.mode = "bounded"
whole_cube_vector.runs = 12
