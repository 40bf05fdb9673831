"""C13: gather puts every rank's piece at its place, and undoes scatter."""
from .c12_scatter import *


def units(tier):
    u = []
    for k, d in enumerate(DIMS):
        for kind in ("tile", "cube"):
            for given in (False, True):
                for mode in ("witness", "generic", "frame"):
                    if mode != "frame" or given:
                        u.append(("gather", dict(dims=d, kind=kind, given=given, mode=mode, dtype=TYPES[k % 3])))
            u.append(("gather_client", dict(dims=d, kind=kind, dtype=TYPES[k % 3])))
    u += [
        ("round_trip", dict(dims=d, kind=k))
        for d in [(Y, X), (X, Y), (Z, YI, X), (XI, YI, ZI), (Y, XI)] for k in ("tile", "cube")
    ]
    u += [("separate_gathers", dict(dims=d, kind=k)) for d in [(Y, X), (Z, YI, X), (XI,)] for k in ("tile", "cube")]
    return u


def gather(vc, dims, kind, given, mode, dtype):
    """the root's side: pieces of all ranks arrive as the chunks of an arbitrary array"""
    D = Domain(vc, dims, kind)
    where = D.position()
    if mode == "witness":
        vc.loop_mode("witness", where[0])
    else:
        vc.loop_mode(mode, where[0])
    own = quantity(vc, "S", D.dims, D.piece, dtype)
    own0 = snapshot(vc, own.data)
    parts = vc.array("P", (D.total,) + D.piece, dtype)
    shared = Collective()

    def all_parts(sendbuf):
        for k in vc.indices(D.piece):
            vc.prove_eq(vc.at(sendbuf, k), vc.at(own0, compute(own, k)), "the root sends its own piece")
        return parts

    if vc.bool("recycled"):
        recycle(vc, own, [(D.total,) + D.piece, D.piece], own.data.dtype)
    comm = CollectiveComm(vc, 0, D.total, shared, parts=all_parts)
    whole = None
    if given:
        whole = quantity(vc, "W", D.gdims, D.gext, dtype)
        whole0 = snapshot(vc, whole.data)
    got = D.communicator(vc, comm).gather(own, whole) if given else D.communicator(vc, comm).gather(own)
    use_buffers(vc, got, [(D.total,) + D.piece, D.piece], own.data.dtype)
    vc.prove(tuple(got.dims) == D.gdims, "the global quantity has the dimensions of the pieces")
    vc.prove_shape(got.extent, D.gext, "the global quantity has the global extent")
    vc.prove(got.data.dtype == own.data.dtype, "the global quantity has the type of the pieces")
    if given:
        vc.prove(got is whole, "a given receive quantity is returned")
    else:
        vc.prove(got.units == own.units, "the global quantity keeps the units")
    if mode == "frame":
        if given:
            prove_outside_unchanged(vc, whole, whole0, "nothing outside of the compute domain changes")
        prove_unchanged(vc, own.data, own0, "the sent quantity is not modified")
    elif mode == "witness" or not vc.symbolic:
        # every element of every piece reaches its place; where two ranks share an
        # interface point the last one counts, so they are given the same value there
        for k in vc.indices(D.piece):
            ok = vc.eq(vc.at(got.data, whole_index(got, D.locate(where, k))), vc.at(parts, (where[0],) + k))
            if not vc.symbolic and not ok:
                p = D.locate(where, k)
                ok = vc.any([
                    vc.eq(vc.at(got.data, whole_index(got, p)), vc.at(parts, (o,) + kk)) for o, kk in owners(D, p)
                ])
            vc.prove(ok, "a piece is put at its place")
        prove_unchanged(vc, own.data, own0, "the sent quantity is not modified")
        prove_independent(vc, got, [(own, own0)], "the global quantity shares no memory with the piece that was sent")
    else:
        # whichever iteration writes a global point, it is one of a rank owning the point
        for p in vc.indices(D.gext):
            k = tuple(x - pos(d, where[2], where[3]) * m for d, m, x in zip(D.dims, D.m, p[-len(D.dims):]))
            got_value = vc.at(got.data, whole_index(got, p))
            if kind == "cube":
                vc.prove(p[0] == where[1], "a rank's piece stays on its tile")
            for x, e in zip(k, D.piece):
                vc.prove(vc.all([x >= 0, x < e]), "only ranks owning a point write it")
            vc.prove_eq(got_value, vc.at(parts, (where[0],) + k), "a global point has an owner's value")


def separate_gathers(vc, dims, kind):
    """a later gather leaves the result of an earlier one alone"""
    D = Domain(vc, dims, kind)
    vc.loop_mode("witness", D.position()[0])
    count = [0]

    def all_parts(sendbuf):
        count[0] += 1
        return vc.array("P%d" % count[0], (D.total,) + D.piece)

    c = D.communicator(vc, CollectiveComm(vc, 0, D.total, Collective(), parts=all_parts))
    first = c.gather(quantity(vc, "S1", D.dims, D.piece, "float64"))
    kept = snapshot(vc, first.data)
    second = c.gather(quantity(vc, "S2", D.dims, D.piece, "float64"))
    prove_unchanged(vc, first.data, kept, "a later gather leaves earlier results alone")
    prove_independent(vc, second, [(first, kept)], "results of separate gathers share no memory")


def owners(D, p):
    """(rank, index in its piece) of all ranks owning the global point p"""
    t = p[0] if D.kind == "cube" else 0
    q = p[-len(D.dims):]
    out = []
    for j in range(D.ly):
        for i in range(D.lx):
            k = tuple(x - pos(d, j, i) * m for d, m, x in zip(D.dims, D.m, q))
            if all(0 <= x < e for x, e in zip(k, D.piece)):
                out.append((t * D.ly * D.lx + j * D.lx + i, k))
    return out


def gather_client(vc, dims, kind, dtype):
    """the other ranks' side: they send their compute domain and get nothing"""
    D = Domain(vc, dims, kind)
    where = D.position()
    vc.assume(where[0] > 0)
    own = quantity(vc, "S", D.dims, D.piece, dtype)
    own0 = snapshot(vc, own.data)
    shared = Collective()
    shared.calls.append(("Gather", {"size": size_of_piece(D), "dtype": own.data.dtype}))
    comm = CollectiveComm(vc, where[0], D.total, shared)
    c = D.communicator(vc, comm)
    if vc.bool("given"):
        # what is received is only of interest on the root
        mine = quantity(vc, "W", D.gdims, D.gext, "float64")
        mine0 = snapshot(vc, mine.data)
        got = c.gather(own, recv_quantity=mine)
        prove_unchanged(vc, mine.data, mine0, "other ranks receive nothing")
    else:
        got = c.gather(own)
    comm.done()
    vc.prove(got is None, "other ranks get nothing")
    sent = comm.gathered
    vc.prove_shape(sent.shape, D.piece, "a rank sends its compute domain")
    for k in vc.indices(D.piece):
        vc.prove_eq(vc.at(sent, k), vc.at(own0, compute(own, k)), "a rank sends its compute domain")
    prove_unchanged(vc, own.data, own0, "the sent quantity is not modified")


def size_of_piece(D):
    n = 1
    for s in D.piece:
        n = n * s
    return n


def round_trip(vc, dims, kind):
    """bounded: all ranks; gather(scatter(x)) == x, repeatedly"""
    D = Domain(vc, dims, kind)
    for turn in range(2):
        dtype = vc.choice("dtype%d" % turn, TYPES)
        shared = Collective()
        whole = quantity(vc, "G%d" % turn, D.gdims, D.gext, dtype)
        before = whole.data.copy()
        pieces = []
        for rank in range(D.total):
            comm = CollectiveComm(vc, rank, D.total, shared)
            pieces.append(D.communicator(vc, comm).scatter(*([whole] if rank == 0 else [])))
        chunks = []
        for rank in range(1, D.total):
            comm = CollectiveComm(vc, rank, D.total, Collective())
            comm.shared.calls.append(("Gather", None))
            vc.prove(D.communicator(vc, comm).gather(pieces[rank]) is None, "other ranks get nothing")
            chunks.append(comm.gathered)
        comm = CollectiveComm(
            vc, 0, D.total, Collective(), parts=lambda sendbuf: vc.np.stack([sendbuf] + chunks)
        )
        if vc.bool("given%d" % turn):
            target = quantity(vc, "T%d" % turn, D.gdims, D.gext, dtype)
            got = D.communicator(vc, comm).gather(pieces[0], target)
        else:
            got = D.communicator(vc, comm).gather(pieces[0])
        vc.prove_shape(got.extent, D.gext, "round trip: extent")
        for p in vc.indices(D.gext):
            vc.prove_eq(got.view[p], before[whole_index(whole, p)], "gathering what was scattered reproduces it")


round_trip.mode = "bounded"
round_trip.runs = 12
