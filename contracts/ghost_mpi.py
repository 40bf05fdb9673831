"""Ghost MPI: the assumed contract of mpi4py, as far as the package uses it.

* Isend(buf, dest, tag) starts a send and returns a request; the content may be taken at
  any moment between the call and the completion of the receive ("eager": copied at
  once; "late": read when it is received) - both are explored;
* Recv(buf, source, tag) blocks until the message of that source and tag is there, and
  fills the whole (C-contiguous) buffer; buffer and message must agree in size and type;
* messages of one source and tag are matched in the order in which they were sent.
"""
from .common import *

TYPES = ["float64", "float32", "int32"]


def typed(units):
    """give every contract an element type, in turn"""
    return [(name, dict(config, dtype=TYPES[k % len(TYPES)])) for k, (name, config) in enumerate(units)]



class Request:
    def __init__(self, log=None):
        self.waited = 0

    def wait(self, *a, **k):
        self.waited += 1

    Wait = wait


class Sent:
    def __init__(self, buf, dest, tag, late):
        self.buf = buf if late else buf.copy()
        self.dest, self.tag = dest, tag
        self.shape, self.dtype = buf.shape, buf.dtype
        self.request = Request()
        self.received = 0


class GhostComm:
    """one rank's end of the communicator; `deliver(source, tag, buf)` supplies messages"""

    def __init__(self, vc, rank, size, late=False, deliver=None):
        self.vc, self._rank, self._size = vc, rank, size
        self.late = late
        self.deliver = deliver
        self.sent = []
        self.events = []

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    rank = property(Get_rank)
    size = property(Get_size)

    def Isend(self, buf, dest, tag=0):
        m = Sent(buf, dest, tag, self.late)
        self.sent.append(m)
        self.events.append(("isend", dest, tag))
        self.vc.prove(buf.flags["C_CONTIGUOUS"], "the send buffer is contiguous")
        return m.request

    def Recv(self, buf, source=None, tag=None, status=None):
        self.events.append(("recv", source, tag))
        self.vc.prove(source is not None and tag is not None, "receives name their source and tag")
        self.vc.prove(buf.flags["C_CONTIGUOUS"], "the receive buffer is contiguous")
        self.deliver(source, tag, buf)

    def Send(self, buf, dest, tag=0):
        raise NotImplementedError("blocking Send in a halo update can deadlock")

    def Irecv(self, buf, source=None, tag=None):
        comm = self

        class _R(Request):
            def wait(self, *a, **k):
                comm.Recv(buf, source=source, tag=tag)

            Wait = wait

        self.events.append(("irecv", source, tag))
        return _R()


def fill(vc, buf, content):
    """the effect of receiving `content` into `buf`: same size, row-major order"""
    n = 1
    for s in content.shape:
        n = n * s
    m = 1
    for s in buf.shape:
        m = m * s
    vc.prove(n == m, "message and receive buffer have the same size")
    vc.prove(content.dtype == buf.dtype, "message and receive buffer have the same type")
    if len(content.shape) == len(buf.shape) and all(
        bool(a == b) for a, b in zip(content.shape, buf.shape)
    ):
        buf[...] = content
    else:
        buf[...] = content.reshape(tuple(buf.shape))


def arbitrary(vc, tag):
    """deliver function giving a fresh arbitrary message to every receive"""
    count = [0]

    def deliver(source, t, buf):
        count[0] += 1
        buf[...] = vc.array("msg%s_%d" % (tag, count[0]), buf.shape, buf.dtype)

    return deliver


def cube_partitioner(vc, boundaries):
    """a real cubed-sphere partitioner whose boundary() follows the contract proved in
    C04 for an arbitrary position: `boundaries` maps boundary type -> SimpleBoundary"""
    P = vc.mod("partitioner")
    part = P.CubedSpherePartitioner(P.TilePartitioner((3, 3)))
    part.boundary = lambda boundary_type, rank: boundaries.get(boundary_type)
    return part


A_RANK = 4
OTHER = {bt: 10 + bt for bt in ALL}  # ranks of the neighbours of rank A
FAR = {bt: 30 + bt for bt in ALL}  # the other neighbours of the neighbour


def opposite(bt, r):
    """the neighbour's boundary that leads back (C04: mutual)"""
    return BY_STEP[tuple(-s for s in step_turn(r, *STEP[bt]))]


def boundaries_of(vc, own, to, rotations):
    S = vc.mod("boundary").SimpleBoundary
    return {
        bt: S(from_rank=own, to_rank=to[bt], n_clockwise_rotations=rotations.get(bt, 0), boundary_type=bt)
        for bt in to
    }


def turned_value(r, u, v):
    """components in rank A's axes of the vector with components (u, v) in the axes of a
    neighbour whose axes are rotated clockwise r times"""
    return [(u, v), (v, -u), (-u, -v), (-v, u)][r % 4]


def place(box_cells, dims_a, p, origin_a, bt, r):
    """where rank A's point p (array index) lies in its neighbour across bt: doubled
    coordinates (y2, x2) from the neighbour's own corner, along the neighbour's axes.
    Cell k is at 2k+1, interface k at 2k; both ranks have my x mx cells."""
    my, mx = box_cells
    iy, ix = axis(dims_a, YD), axis(dims_a, XD)
    y2 = 2 * (p[iy] - origin_a[iy]) + (0 if dims_a[iy] in INTERFACE else 1)
    x2 = 2 * (p[ix] - origin_a[ix]) + (0 if dims_a[ix] in INTERFACE else 1)
    dy, dx = STEP[bt]
    return turn(r, y2 - dy * 2 * my, x2 - dx * 2 * mx, 2 * my + 1, 2 * mx + 1)


def index_at(dims_b, p, origin_a, origin_b, y2, x2, dims_a=None):
    """index of the point at (y2, x2) in the neighbour's array"""
    out = []
    for k, d in enumerate(dims_b):
        if d in YD:
            c = y2
        elif d in XD:
            c = x2
        else:
            out.append(p[k] - origin_a[k] + origin_b[k])
            continue
        out.append(c // 2 + origin_b[k])
    return tuple(out)
