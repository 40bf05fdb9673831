"""C11: with any number of updates in flight, every message reaches its own request.

Two ranks A and B that are neighbours across one boundary start two arbitrary operations
after an arbitrary history (`earlier`: value of the counter the history left behind) and
wait for them in either order.  Every other rank is an arbitrary environment.
"""
from .c08_halo_update import *

REAL = sorted({(bt, fold(t, *STEP[bt])[1]) for t in range(6) for bt in EDGES} | {(bt, 0) for bt in EDGES})
REAL += [(bt, r) for bt in CORNERS for r in (0, 1, 3)]
OPS = ["halo", "vector", "sync"]
COMPONENTS = {
    "halo": [(Y, X)], "vector": [(Y, XI), (YI, X)], "sync": [(YI, X), (Y, XI)],
}


def units(tier):
    u = [("matching", dict(first=a, second=b, bt=bt, r=r)) for a in OPS for b in OPS for bt, r in REAL]
    u += [("sends_first", dict(op=op)) for op in OPS]
    u += [("zero_width_refused", dict(op=op)) for op in OPS[:2]]
    return u


class Operation:
    """one operation of one rank on its own quantities"""

    def __init__(self, vc, kind, cells, n, dtype, name):
        self.kind, self.n = kind, n
        my, mx = cells
        self.qs = []
        Q = vc.mod("quantity").Quantity
        for k, dims in enumerate(COMPONENTS[kind]):
            extent = tuple((my if d in YD else mx) + n_shared(d) for d in dims)
            shape = tuple(e + 2 * n for e in extent)
            data = vc.array("%s%d" % (name, k), shape, dtype)
            self.qs.append(Q(data, dims=dims, units="m", origin=(n, n), extent=extent))

    def start(self, cube, n=None):
        n = self.n if n is None else n
        if self.kind == "halo":
            return cube.start_halo_update(self.qs[0], n)
        if self.kind == "vector":
            return cube.start_vector_halo_update(*self.qs, n)
        return cube.start_synchronize_vector_interfaces(*self.qs)

    def blocking(self, cube, n=None):
        n = self.n if n is None else n
        if self.kind == "halo":
            return cube.halo_update(self.qs[0], n)
        if self.kind == "vector":
            return cube.vector_halo_update(*self.qs, n)
        return cube.synchronize_vector_interfaces(*self.qs)


def counters(obj):
    return {k: v for k, v in vars(obj).items() if vc_int(v)}


def vc_int(v):
    return type(v).__name__ in ("int", "SymInt")


def communicator(vc, rank, to, rotations, late, deliver):
    comm = GhostComm(vc, rank, 54, late, deliver)
    cube = vc.mod("communicator").CubedSphereCommunicator(
        comm, cube_partitioner(vc, boundaries_of(vc, rank, to, rotations))
    )
    return comm, cube


def after_history(vc, sides, earlier, start):
    """bring the communicators into the state that `earlier` previous halo updates, still
    in flight, leave behind.  The verifier havocs the one counter that an operation
    changes; concretely the updates are really started."""
    if vc.symbolic:
        for side, (comm, cube, process) in enumerate(sides):
            probe = communicator(process, comm._rank, FAR, {}, False, None)[1]
            before = counters(probe)
            start(process, probe, side)
            changed = [k for k, v in counters(probe).items() if not same(before.get(k), v)]
            if len(changed) != 1:
                raise vc.unsupported("operations are not numbered by one counter")
            setattr(cube, changed[0], getattr(cube, changed[0]) + earlier)
        return
    vc.assume(earlier <= 3000)
    for _ in range(earlier):
        for side, (comm, cube, process) in enumerate(sides):
            start(process, cube, side)


def same(a, b):
    return type(a) is type(b) and bool(a == b)


def matching(vc, first, second, bt, r):
    n = vc.int("n_points", 1)
    my = n + vc.int("more_y", 0)
    mx = my if r % 2 else n + vc.int("more_x", 0)
    earlier = vc.int("earlier", 0)
    late, order, dtype = vc.choice(
        "schedule", [(True, (0, 1), "float64"), (True, (1, 0), "float32"), (False, (1, 0), "int32")]
    )
    nb, back = OTHER[bt], opposite(bt, r)
    to_b = dict(FAR)
    to_b[back] = A_RANK
    other = vc.process()
    inbox = {A_RANK: [], nb: []}
    waiting = {}

    def delivery(own, peer):
        rest = arbitrary(vc, "r%d" % own)

        def deliver(source, tag, buf):
            if source != peer:
                return rest(source, tag, buf)
            hits = [m for m in inbox[own] if bool(m.tag == tag)]
            vc.prove(len(hits) == 1, "exactly one message matches a receive")
            m = hits[0]
            vc.prove(m.op == waiting[own], "a request receives the message of its own operation")
            vc.prove(m.received == 0, "a message is received once")
            m.received += 1
            fill(vc, buf, m.buf)

        return deliver

    comm_a, cube_a = communicator(vc, A_RANK, OTHER, {bt: r}, late, delivery(A_RANK, nb))
    comm_b, cube_b = communicator(other, nb, to_b, {back: (-r) % 4}, late, delivery(nb, A_RANK))
    sides = [(comm_a, cube_a, vc), (comm_b, cube_b, other)]
    small = [Operation(v, "halo", (1, 1), 1, "float64", "h%d" % k) for k, (_, _, v) in enumerate(sides)]
    history = {0: [], 1: []}
    after_history(vc, sides, earlier, lambda v, cube, side: history[side].append(small[side].start(cube)))
    n_before = [len(comm_a.sent), len(comm_b.sent)]
    requests = [[], []]
    for k, kind in enumerate((first, second)):
        for side, (comm, cube, v) in enumerate(sides):
            op = Operation(v, kind, (my, mx), n, dtype, "q%d%d" % (side, k))
            have = len(comm.sent)
            requests[side].append(op.start(cube))
            for m in comm.sent[have:]:
                m.op = k
    for side, (comm, cube, v) in enumerate(sides):
        own, peer = (A_RANK, nb) if side == 0 else (nb, A_RANK)
        for m in comm.sent[: n_before[side]]:
            m.op = None
        for m in comm.sent:
            if m.dest == peer:
                inbox[peer].append(m)
        mine = comm.sent[n_before[side]:]
        for a in mine:
            for b in mine:
                if a.op == 0 and b.op == 1 and vc.symbolic:
                    # by induction over the history, no two operations share a tag
                    vc.prove(a.tag < b.tag, "tags increase from operation to operation")
    for k in order:
        for side in (0, 1):
            own = A_RANK if side == 0 else nb
            waiting[own] = k
            requests[side][k].wait()
    for own in inbox:
        for m in inbox[own]:
            if m.op is not None:
                vc.prove(m.received == 1, "every message is received exactly once")
    for comm, cube, v in sides:
        for m in comm.sent[n_before[0] if comm is comm_a else n_before[1]:]:
            vc.prove(m.request.waited > 0, "waiting completes the sends")


def sends_first(vc, op):
    """starting never blocks, and an operation has started all its sends before it first
    blocks; the blocking forms as well"""
    n = vc.int("n_points", 1)
    my, mx = n + vc.int("more_y", 0), n + vc.int("more_x", 0)
    comm, cube = communicator(vc, A_RANK, OTHER, {}, False, arbitrary(vc, "a"))
    o = Operation(vc, op, (my, mx), n, float, "q")
    request = o.start(cube)
    vc.prove(all(e[0] != "recv" for e in comm.events), "starting an operation never blocks")
    n_sent = len(comm.sent)
    vc.prove(n_sent == {"halo": 8, "vector": 16, "sync": 2}[op], "all messages are sent at the start")
    request.wait()
    vc.prove(len(comm.sent) == n_sent, "waiting sends nothing")
    vc.prove(all(m.request.waited > 0 for m in comm.sent), "waiting completes the sends")
    comm2, cube2 = communicator(vc, A_RANK, OTHER, {}, False, arbitrary(vc, "b"))
    Operation(vc, op, (my, mx), n, float, "p").blocking(cube2)
    kinds = [e[0] for e in comm2.events if e[0] in ("isend", "recv")]
    vc.prove(kinds == sorted(kinds), "all sends precede the first blocking receive")
    vc.prove(kinds.count("isend") == n_sent, "the blocking form sends the same messages")


def zero_width_refused(vc, op):
    my, mx = vc.int("my", 1), vc.int("mx", 1)
    h = vc.int("halo", 0)
    for form in ("start", "blocking"):
        comm, cube = communicator(vc, A_RANK, OTHER, {}, False, arbitrary(vc, form))
        o = Operation(vc, op, (my, mx), h, float, "q" + form)
        vc.expect_raises(ValueError, lambda: getattr(o, form)(cube, 0), "a zero-width update is refused")
        vc.prove(not comm.events, "nothing is sent or received for a refused update")
