"""C12: scatter gives every rank its own piece of the root's array."""
from .ghost_collective import *

DIMS = [
    (Y, X), (X, Y), (Z, Y, X), (Y, X, Z), (YI, X), (Y, XI), (YI, XI), (XI, ZI, Y), ("xland_interface", YI, X), (Z,), (X,),
]
TYPES = ["float64", "float32", "int32"]


def units(tier):
    u = []
    for k, d in enumerate(DIMS):
        for kind in ("tile", "cube"):
            for given in (False, True):
                for role in ("root", "client"):
                    for mode in ("witness", "generic"):
                        u.append(("scatter", dict(dims=d, kind=kind, given=given, role=role, mode=mode, dtype=TYPES[k % 3])))
    # only the root's data matter, whatever other ranks pass
    u += [("scatter", dict(dims=d, kind=kind, given=given, role="client", mode="witness", dtype=TYPES[k % 3], own=own))
          for k, d in enumerate(DIMS[::3]) for kind, given in (("tile", k % 2 == 0), ("cube", k % 2 == 1)) for own in ("same", "other")]
    u += [("root_needs_data", dict(kind=kind)) for kind in ("tile", "cube")]
    u += [("separate_scatters", dict(dims=d, kind=k, role=r))
          for d in [(Y, X), (Z, YI, X), (XI,)] for k in ("tile", "cube") for r in ("root", "client")]
    u += [("metadata", dict(dims=d, role=r, n=n)) for k, d in enumerate(DIMS[2:6]) for r in ("root", "client") for n in (1, 2)]
    u += [("whole_scatter", dict(dims=d, kind=k)) for d in [(Y, X), (Z, YI, X), (XI, YI, ZI)] for k in ("tile", "cube")]
    return u


class Domain:
    """a tile or cube of ly x lx ranks with m cells per rank and dimension"""

    def __init__(self, vc, dims, kind):
        self.vc, self.dims, self.kind = vc, tuple(dims), kind
        self.ly, self.lx = vc.int("ly", 1, small=3), vc.int("lx", 1, small=3)
        self.m = [vc.int("m_%d" % k, 1, small=3) for k in range(len(dims))]
        self.n_tiles = 6 if kind == "cube" else 1
        self.total = self.n_tiles * self.ly * self.lx
        self.piece = tuple(m + n_shared(d) for d, m in zip(dims, self.m))
        self.ext = tuple(m * factor(d, self.ly, self.lx) + n_shared(d) for d, m in zip(dims, self.m))
        if kind == "cube":
            self.gdims, self.gext = (TILE,) + self.dims, (6,) + self.ext
        else:
            self.gdims, self.gext = self.dims, self.ext

    def position(self, tag=""):
        """an arbitrary rank: (rank, tile, j, i)"""
        vc = self.vc
        t = vc.int("t" + tag, 0, 5) if self.kind == "cube" else 0
        j, i = vc.int("j" + tag, 0, self.ly - 1), vc.int("i" + tag, 0, self.lx - 1)
        return (t * self.ly * self.lx + j * self.lx + i if self.kind == "cube" else j * self.lx + i), t, j, i

    def locate(self, where, k):
        """global index of element k of the piece of the rank at `where`"""
        rank, t, j, i = where
        p = tuple(pos(d, j, i) * m + x for d, m, x in zip(self.dims, self.m, k))
        return ((t,) + p) if self.kind == "cube" else p

    def communicator(self, vc, comm):
        P, C = vc.mod("partitioner"), vc.mod("communicator")
        tile = P.TilePartitioner((self.ly, self.lx))
        if self.kind == "tile":
            return C.TileCommunicator(comm, tile)
        return C.CubedSphereCommunicator(comm, P.CubedSpherePartitioner(tile))


def quantity(vc, name, dims, extent, dtype, pad=True, units="K"):
    if pad:
        origin = tuple(vc.int("a%s_%d" % (name, k), 0, small=2) for k in range(len(dims)))
        after = tuple(vc.int("b%s_%d" % (name, k), 0, small=2) for k in range(len(dims)))
    else:
        origin = after = (0,) * len(dims)
    shape = tuple(o + e + b for o, e, b in zip(origin, extent, after))
    data = vc.array(name, shape, dtype)
    return vc.mod("quantity").Quantity(data, dims=dims, units=units, origin=origin, extent=extent)


def recycle(vc, q, shapes, dtype):
    """an earlier communication has left buffers of the same kind behind"""
    B = vc.mod("buffer")
    for alloc in (q.np.empty, vc.mod("communicator").np.empty):
        for s in shapes:
            with B.array_buffer(alloc, s, dtype):
                pass


def use_buffers(vc, q, shapes, dtype):
    """a later communication uses, and writes to, whatever buffers are free"""
    B = vc.mod("buffer")
    for n, alloc in enumerate((q.np.empty, vc.mod("communicator").np.empty)):
        for k, s in enumerate(shapes):
            with B.array_buffer(alloc, s, dtype) as b:
                b[...] = vc.array("later_%d_%d" % (n, k), s, dtype)


def prove_independent(vc, got, others, label):
    """writing to all of got changes none of the others (to be used last)"""
    got.data[...] = vc.array("scribble", got.data.shape, got.data.dtype)
    for q, before in others:
        prove_unchanged(vc, q.data, before, label)


def prove_unchanged(vc, data, before, label):
    for p in vc.indices(data.shape):
        vc.prove_eq(vc.at(data, p), vc.at(before, p), label)


def prove_outside_unchanged(vc, q, before, label):
    block = [(o, o + e) for o, e in zip(q.origin, q.extent)]
    for p in vc.indices(q.data.shape):
        if inside(p, block) is None:
            vc.prove_eq(vc.at(q.data, p), vc.at(before, p), label)


def compute(q, k):
    return tuple(o + x for o, x in zip(q.origin, k))


def scatter(vc, dims, kind, given, role, mode, dtype, own=None):
    D = Domain(vc, dims, kind)
    if role == "root":
        where = (0, 0, 0, 0)
    else:
        where = D.position()
        vc.assume(where[0] > 0)
    rank = where[0]
    if mode == "witness":
        vc.loop_mode("witness", rank)
    else:
        # any other iteration of the loop over ranks: it does not touch this rank's piece
        g = vc.int("g", 0, D.total - 1)
        vc.assume(g != rank)
        vc.loop_mode("generic", g)
    shared = Collective()
    whole = quantity(vc, "G", D.gdims, D.gext, dtype)
    before = snapshot(vc, whole.data)
    v = vc
    if vc.bool("recycled"):
        recycle(vc, whole, [(D.total,) + D.piece, D.piece], whole.data.dtype)
    root = CollectiveComm(vc, 0, D.total, shared, watch=rank)
    mine = None
    if given and role == "root":
        mine = quantity(vc, "R", D.dims, D.piece, dtype)
        mine0 = snapshot(vc, mine.data)
    got = D.communicator(vc, root).scatter(send_quantity=whole, recv_quantity=mine)
    if role == "client":
        v = vc.process()
        if given:
            mine = quantity(v, "R", D.dims, D.piece, dtype)
            mine0 = snapshot(vc, mine.data)
        comm = CollectiveComm(v, rank, D.total, shared)
        c = D.communicator(v, comm)
        args = {"recv_quantity": mine} if given else {}
        if own is not None:
            d, e = (D.gdims, D.gext) if own == "same" else ((Y, "other"), (2, 3))
            args["send_quantity"] = quantity(v, "O", d, e, TYPES[(TYPES.index(dtype) + 1) % 3], units="other units")
            own0 = snapshot(vc, args["send_quantity"].data)
        got = c.scatter(**args)
        comm.done()
        if own is not None:
            prove_unchanged(vc, args["send_quantity"].data, own0, "what another rank passes is not modified")
    use_buffers(v, got, [(D.total,) + D.piece, D.piece], whole.data.dtype)
    vc.prove(tuple(got.dims) == D.dims, "the piece has the quantity's horizontal and other dimensions")
    vc.prove_shape(got.extent, D.piece, "the piece has the rank's extent")
    vc.prove(got.units == whole.units, "the piece keeps the units")
    vc.prove(got.data.dtype == whole.data.dtype, "the piece keeps the type")
    for k in vc.indices(D.piece):
        vc.prove_eq(
            vc.at(got.data, compute(got, k)), vc.at(before, whole_index(whole, D.locate(where, k))),
            "the rank receives its own piece",
        )
    prove_unchanged(vc, whole.data, before, "the root's data is not modified")
    if given:
        vc.prove(got is mine, "a given receive quantity is returned")
        prove_outside_unchanged(vc, mine, mine0, "nothing outside of the compute domain changes")
    prove_independent(vc, got, [(whole, before)], "the piece shares no memory with the root's data")


def separate_scatters(vc, dims, kind, role):
    """a later scatter leaves the result of an earlier one alone"""
    D = Domain(vc, dims, kind)
    rank = 0
    if role == "client":
        rank = D.position()[0]
        vc.assume(rank > 0)
    vc.loop_mode("witness", rank)
    shared = Collective()
    roots = D.communicator(vc, CollectiveComm(vc, 0, D.total, shared, watch=rank))
    got = [roots.scatter(quantity(vc, "G1", D.gdims, D.gext, "float64"))]
    if role == "root":
        kept = snapshot(vc, got[0].data)
    got.append(roots.scatter(quantity(vc, "G2", D.gdims, D.gext, "float64")))
    if role == "client":
        v = vc.process()
        c = D.communicator(v, CollectiveComm(v, rank, D.total, shared))
        got = [c.scatter()]
        kept = snapshot(vc, got[0].data)
        got.append(c.scatter())
    first, second = got
    prove_unchanged(vc, first.data, kept, "a later scatter leaves earlier results alone")
    prove_independent(vc, second, [(first, kept)], "results of separate scatters share no memory")


def metadata(vc, dims, role, n):
    """every rank receives the metadata of the root's quantities"""
    D = Domain(vc, dims, "tile")
    rank = 0
    if role == "client":
        rank = D.position()[0]
        vc.assume(rank > 0)
    qs = [quantity(vc, "G%d" % k, dims[k:], D.ext[k:], TYPES[k], units="K%d" % k) for k in range(n)]
    what = [(tuple(q.dims), q.units, q.data.dtype, tuple(q.extent), tuple(q.origin)) for q in qs]
    shared = Collective()

    def call(v, comm, given):
        C = v.mod("communicator")
        if not (hasattr(C, "bcast_metadata") and hasattr(C, "bcast_metadata_list")):
            raise vc.unsupported("metadata are not broadcast by functions of their own")
        if vc.choice("several", [0, 1]) or n > 1:
            return C.bcast_metadata_list(comm, given)
        return [C.bcast_metadata(comm, given[0])]

    got = call(vc, CollectiveComm(vc, 0, D.total, shared), qs)
    if role == "client":
        v = vc.process()
        comm = CollectiveComm(v, rank, D.total, shared)
        # what another rank passes does not matter
        mine = quantity(v, "M", (Y,), (2,), "float64", units="m") if vc.bool("given") else None
        got = call(v, comm, [mine] * n)
        comm.done()
    vc.prove(len(got) == n, "one metadata per quantity")
    for m, (d, units_, dtype, extent, origin) in zip(got, what):
        vc.prove(tuple(m.dims) == d, "the root's dimensions are received")
        vc.prove(m.units == units_, "the root's units are received")
        vc.prove(vc.np.dtype(m.dtype) == dtype, "the root's type is received")
        vc.prove_shape(m.extent, extent, "the root's extent is received")
        vc.prove_shape(m.origin, origin, "the root's origin is received")


def whole_index(q, p):
    return tuple(o + x for o, x in zip(q.origin, p))


def root_needs_data(vc, kind):
    D = Domain(vc, (Y, X), kind)
    comm = CollectiveComm(vc, 0, D.total, Collective(), watch=0)
    vc.expect_raises(TypeError, lambda: D.communicator(vc, comm).scatter(), "the root must provide data")
    vc.prove(not comm.shared.calls, "nothing is sent without data")


def whole_scatter(vc, dims, kind):
    """bounded: all ranks, several scatters after each other"""
    D = Domain(vc, dims, kind)
    for turn in range(2):
        shared = Collective()
        whole = quantity(vc, "G%d" % turn, D.gdims, D.gext, vc.choice("dtype%d" % turn, TYPES))
        before = whole.data.copy()
        rank = 0
        for t in range(D.n_tiles):
            for j in range(D.ly):
                for i in range(D.lx):
                    comm = CollectiveComm(vc, rank, D.total, shared)
                    got = D.communicator(vc, comm).scatter(*([whole] if rank == 0 else []))
                    comm.done()
                    vc.prove_shape(got.extent, D.piece, "the piece has the rank's extent")
                    for k in vc.indices(D.piece):
                        vc.prove_eq(
                            got.view[k], before[whole_index(whole, D.locate((rank, t, j, i), k))],
                            "the rank receives its own piece",
                        )
                    rank += 1
        prove_unchanged(vc, whole.data, before, "the root's data is not modified")


whole_scatter.mode = "bounded"
whole_scatter.runs = 12
