"""C10: synchronising C-grid vectors makes both owners of an edge agree."""
from .c08_halo_update import *

CPAIRS = [
    ((YI, X), (Y, XI)), ((X, YI), (XI, Y)), ((Z, YI, X), (Z, Y, XI)), ((X, YI, Z), (XI, Y, Z)),
    ((YI, Z, X), (Y, Z, XI)), ((YI, X, ZI), (Y, XI, ZI)), (("xland_interface", Z, YI, X), ("xland_interface", Z, Y, XI)),
    ((X, Z, YI), (XI, Z, Y)),
]
# across which edges the value arrives, with which rotation (from the folded cube)
ARRIVALS = [(NORTH, 0), (NORTH, 3), (EAST, 0), (EAST, 1)]
assert all((bt, fold(t, *STEP[bt])[1]) in ARRIVALS for t in range(6) for bt in (NORTH, EAST))
assert all(opposite(bt, r) in (SOUTH, WEST) for bt, r in ARRIVALS)


def units(tier):
    u = [("edge_value", dict(pair=p, bt=bt, r=r)) for p in CPAIRS for bt, r in ARRIVALS]
    u += [("sync_frame", dict(pair=p, which=w)) for p in CPAIRS for w in (0, 1)]
    u += [("refused", dict(k=k)) for k in range(len(BAD))]
    u += [("whole_cube_sync", dict(pair=p)) for p in CPAIRS]
    return typed(u)


def setup(vc, pair, r):
    my = vc.int("my", 1)
    mx = my if r % 2 else vc.int("mx", 1)
    nz = [vc.int("nz_%d" % k, 1) for k in range(len(pair[0]))]
    ext = [
        tuple(
            my + n_shared(d) if d in YD else mx + n_shared(d) if d in XD else nz[k]
            for k, d in enumerate(dims)
        )
        for dims in pair
    ]
    return my, mx, ext


def edge_block(q, which):
    """the shared edge a rank receives: north edge of x, east edge of y"""
    name = YI if which == 0 else XI
    return [
        (o + e - 1, o + e) if d == name else (o, o + e)
        for d, o, e in zip(q.dims, q.origin, q.extent)
    ]


def pair_of(vc, pair, ext, name, tag, dtype="float64"):
    out = []
    for c, dims, e in zip("XY", pair, ext):
        out.append(padded(vc, name + c, dims, e, 0, tag + c, dtype=dtype))
    return out


def edge_value(vc, pair, bt, r, dtype):
    my, mx, ext = setup(vc, pair, r)
    late, blocking = vc.choice("schedule", [(True, False), (False, True)])
    other = vc.process()
    (qax, AX), (qay, AY) = pair_of(vc, pair, ext, "A", "a", dtype)
    (qbx, BX), (qby, BY) = pair_of(other, pair, ext, "B", "b", dtype)
    BX0, BY0 = snapshot(vc, BX), snapshot(vc, BY)
    back, nb = opposite(bt, r), OTHER[bt]
    to_b = dict(FAR)
    to_b[back] = A_RANK
    comm_b = GhostComm(vc, nb, 54, late, arbitrary(vc, "b"))
    cube_b = other.mod("communicator").CubedSphereCommunicator(
        comm_b, cube_partitioner(other, boundaries_of(other, nb, to_b, {back: (-r) % 4}))
    )
    req = cube_b.start_synchronize_vector_interfaces(qbx, qby)
    if late:
        req.wait()
    mine = [m for m in comm_b.sent if m.dest == A_RANK]
    vc.prove(len(mine) == 1, "one message for the shared edge")
    rest = arbitrary(vc, "a")

    def deliver(source, tag, buf):
        if source == nb:
            vc.prove(tag == mine[0].tag, "sender and receiver use the same tag")
            fill(vc, buf, mine[0].buf)
        else:
            rest(source, tag, buf)

    comm_a = GhostComm(vc, A_RANK, 54, late, deliver)
    cube_a = vc.mod("communicator").CubedSphereCommunicator(
        comm_a, cube_partitioner(vc, boundaries_of(vc, A_RANK, OTHER, {bt: r}))
    )
    if blocking:
        cube_a.synchronize_vector_interfaces(qax, qay)
    else:
        cube_a.start_synchronize_vector_interfaces(qax, qay).wait()
    which = 0 if bt == NORTH else 1
    qa, A = ((qax, AX), (qay, AY))[which]
    qb, B0 = ((qbx, BX0), (qby, BY0))[which if r % 2 == 0 else 1 - which]
    block = edge_block(qa, which)
    for k in vc.indices([b - a for a, b in block]):
        p = tuple(a + i for (a, b), i in zip(block, k))
        y2, x2 = place((my, mx), qa.dims, p, qa.origin, bt, r)
        v = vc.at(B0, index_at(qb.dims, p, qa.origin, qb.origin, y2, x2))
        vc.prove_eq(vc.at(A, p), turned_value(r, v, v)[which], "shared edge holds the owner's vector")


def sync_frame(vc, pair, which, dtype):
    my, mx, ext = setup(vc, pair, 0)
    qs = pair_of(vc, pair, ext, "A", "a", dtype)
    before = [snapshot(vc, d) for _, d in qs]
    rx, ry = vc.choice("rot", [(0, 0), (1, 3)])
    comm = GhostComm(vc, A_RANK, 54, vc.bool("late"), arbitrary(vc, "a"))
    cube = vc.mod("communicator").CubedSphereCommunicator(
        comm, cube_partitioner(vc, boundaries_of(vc, A_RANK, OTHER, {SOUTH: rx, WEST: ry}))
    )
    cube.synchronize_vector_interfaces(qs[0][0], qs[1][0])
    q, data = qs[which]
    block = edge_block(q, which)
    for p in vc.indices(data.shape):
        if inside(p, block) is None:
            vc.prove_eq(vc.at(data, p), vc.at(before[which], p), "everything but the received edge is unchanged")


BAD = [((Y, X), (Y, XI)), ((YI, X), (Y, X)), ((YI, XI), (YI, XI)), ((Y, XI), (YI, X)), ((YI, X), (YI, XI)), ((Z, Y, X), (Z, Y, X))]


def refused(vc, k, dtype):
    pair = BAD[k]
    my, mx, ext = setup(vc, pair, 0)
    qs = pair_of(vc, pair, ext, "A", "a", dtype)
    before = [snapshot(vc, d) for _, d in qs]
    comm = GhostComm(vc, A_RANK, 54, False, arbitrary(vc, "a"))
    cube = vc.mod("communicator").CubedSphereCommunicator(
        comm, cube_partitioner(vc, boundaries_of(vc, A_RANK, OTHER, {}))
    )
    vc.expect_raises(
        ValueError,
        lambda: cube.start_synchronize_vector_interfaces(qs[0][0], qs[1][0]),
        "vectors off the C grid are refused",
    )
    vc.prove(not comm.events, "nothing is sent or received for a refused vector")
    for (q, d), d0 in zip(qs, before):
        for p in vc.indices(d.shape):
            vc.prove_eq(vc.at(d, p), vc.at(d0, p), "a refused vector is unchanged")


def whole_cube_sync(vc, pair, dtype):
    L, m, n, late, part = cube_setup(vc, pair[0])
    net = Network()
    ranks = range(6 * L * L)
    qs, before, cubes = [], [], []
    for rank in ranks:
        ext = [tuple(m + n_shared(d) if d in HORIZ else 2 + k for k, d in enumerate(dims)) for dims in pair]
        qs.append([q for q, _ in pair_of(vc, pair, ext, "A%d" % rank, "%d" % rank, dtype)])
        before.append([q.data.copy() for q in qs[-1]])
        cubes.append(vc.mod("communicator").CubedSphereCommunicator(net.comm(vc, rank, len(ranks), late), part))
    reqs = [c.start_synchronize_vector_interfaces(*q) for c, q in zip(cubes, qs)]
    for req in reqs:
        req.wait()
    vc.prove(all(not q for q in net.queue.values()), "every message is received")
    for rank in ranks:
        t, j, i = rank // (L * L), rank % (L * L) // L, rank % L
        for w, bt in ((0, NORTH), (1, EAST)):
            q = qs[rank][w]
            t2, j2, i2, r = cube_neighbour(L, t, j, i, bt)
            src = t2 * L * L + j2 * L + i2
            w2 = w if r % 2 == 0 else 1 - w
            block = edge_block(q, w)
            for p in vc.indices(q.data.shape):
                want = before[rank][w][p]
                if inside(p, block) is not None:
                    y2, x2 = place((m, m), q.dims, p, q.origin, bt, r)
                    s = qs[src][w2]
                    v = before[src][w2][index_at(s.dims, p, q.origin, s.origin, y2, x2)]
                    want = turned_value(r, v, v)[w]
                vc.prove_eq(q.data[p], want, "whole cube: shared edges agree, the rest is unchanged")


whole_cube_sync.mode = "bounded"
whole_cube_sync.runs = 10
