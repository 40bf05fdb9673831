"""Ghost MPI collectives: the assumed contract of mpi4py's bcast, Scatter and Gather.

* bcast(obj, root) returns an equal copy of the root's object on every rank;
* Scatter(send, recv, root) splits the root's contiguous buffer into one equal chunk per
  rank, in rank order; Gather is the reverse; both sides agree in size and type, and on
  ranks other than the root the other buffer is ignored;
* all ranks call the same collectives with the same root in the same order.
"""
import copy

from .common import *
from .ghost_mpi import fill


class Collective:
    """what the root's calls make available to the other ranks"""

    def __init__(self):
        self.calls = []


def chunk(vc, buf, k, total, like):
    """part k of total of a contiguous buffer, in the shape of `like`"""
    shape = tuple(buf.shape)
    want = (total,) + tuple(like.shape)
    if len(shape) == len(want) and all(bool(a == b) for a, b in zip(shape, want)):
        return buf[k]
    return buf.reshape(want)[k]


def size_of(a):
    n = 1
    for s in a.shape:
        n = n * s
    return n


class CollectiveComm:
    """`others`: rank whose chunk is observed; its part of a Gather is given by `parts`"""

    def __init__(self, vc, rank, total, shared, watch=None, parts=None):
        self.vc, self._rank, self._total, self.shared = vc, rank, total, shared
        self.watch, self.parts = watch, parts
        self.root = rank == 0 if isinstance(rank, int) else False
        self.n = 0
        self.gathered = None

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._total

    rank = property(Get_rank)
    size = property(Get_size)

    def _call(self, name, root, payload=None):
        self.vc.prove(root == 0, "collectives use the root rank")
        if self.root:
            self.shared.calls.append((name, payload))
            return payload
        self.vc.prove(self.n < len(self.shared.calls), "all ranks make the same collective calls")
        got, payload = self.shared.calls[self.n]
        self.n += 1
        self.vc.prove(got == name, "all ranks make the same collective calls in the same order")
        return payload

    def done(self):
        if not self.root:
            self.vc.prove(self.n == len(self.shared.calls), "all ranks make the same collective calls")

    def bcast(self, obj, root=0):
        return copy.copy(self._call("bcast", root, obj))

    def Scatter(self, sendbuf, recvbuf, root=0):
        vc, total = self.vc, self._total
        vc.prove(recvbuf.flags["C_CONTIGUOUS"], "the receive buffer is contiguous")
        if self.root:
            vc.prove(sendbuf.flags["C_CONTIGUOUS"], "the send buffer is contiguous")
            vc.prove(size_of(sendbuf) == total * size_of(recvbuf), "one equal chunk per rank is sent")
            vc.prove(sendbuf.dtype == recvbuf.dtype, "sender and receiver use the same type")
            mine = chunk(vc, sendbuf, self._rank, total, recvbuf).copy()
            if vc.symbolic:
                payload = {"watch": chunk(vc, sendbuf, self.watch, total, recvbuf).copy(), "dtype": sendbuf.dtype}
            else:
                payload = {"all": sendbuf.copy(), "dtype": sendbuf.dtype}
            payload["size"] = size_of(recvbuf)
            self._call("Scatter", root, payload)
        else:
            payload = self._call("Scatter", root)
            vc.prove(payload["size"] == size_of(recvbuf), "every rank receives a chunk of the same size")
            vc.prove(payload["dtype"] == recvbuf.dtype, "sender and receiver use the same type")
            if "watch" in payload:
                mine = payload["watch"]
            else:
                mine = chunk(vc, payload["all"], self._rank, total, recvbuf)
        fill(vc, recvbuf, mine)

    def Gather(self, sendbuf, recvbuf, root=0):
        vc, total = self.vc, self._total
        vc.prove(sendbuf.flags["C_CONTIGUOUS"], "the send buffer is contiguous")
        self.gathered = sendbuf.copy()
        if not self.root:
            payload = self._call("Gather", root)
            if payload is not None:
                vc.prove(payload["size"] == size_of(sendbuf), "every rank sends a chunk of the same size")
                vc.prove(payload["dtype"] == sendbuf.dtype, "sender and receiver use the same type")
            return
        vc.prove(recvbuf.flags["C_CONTIGUOUS"], "the receive buffer is contiguous")
        vc.prove(size_of(recvbuf) == total * size_of(sendbuf), "one equal chunk per rank is received")
        vc.prove(sendbuf.dtype == recvbuf.dtype, "sender and receiver use the same type")
        self._call("Gather", root, {"size": size_of(sendbuf), "dtype": sendbuf.dtype})
        parts = self.parts(sendbuf)
        fill(vc, recvbuf, parts)
