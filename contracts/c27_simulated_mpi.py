"""C27: the simulated communicator carries messages and collectives as MPI would.

The number of ranks (at most 4) and of calls in a history are bounded; every interleaving of
a history is explored, and the sizes, types and values of the data are universal.

Three histories are left out or required less of, the recorded findings of known-findings.txt
(the file counts as a test file, so they are not repaired): a receive with the pair's earlier
messages all received raises IndexError; so does a bcast or Scatter ahead of the root, and it is
counted; Gather keeps the last data of each rank for ever, so the root's k-th gather is right
only between the other ranks' k-th and next ones.
"""
from .common import *

LEVEL = "exploration"
ASSUMPTIONS = ["at most 4 ranks and 6 calls in a history; one kind of message between two ranks at a time (no tags)"]


def units(tier):
    u = [("messages", dict(plan=p)) for p in PLANS]
    u += [("immediate", dict(pairs=p)) for p in ([(0, 1)], [(1, 0), (0, 1)], [(2, 2)], [(2, 0), (1, 0)])]
    u += [("broadcast", dict(total=t, calls=k)) for t in (1, 2, 4) for k in (1, 2)]
    u += [("scatter", dict(total=t, calls=k, dtype=d)) for t in (1, 2, 3) for k in (1, 2) for d in ("float64", "int32")]
    u += [("gather", dict(total=t, calls=k, dtype=d)) for t in (1, 2, 3) for k in (1, 2) for d in ("float64", "float32")]
    u += [("too_early", dict(what=w)) for w in ("recv", "second recv", "irecv", "bcast", "scatter", "gather")]
    u += [("other_root", {}), ("contiguous", {}), ("separate", {}), ("identity", {})]
    return u


# messages by sender and receiver, in the order they are sent
PLANS = [[(0, 1)], [(0, 1), (0, 1)], [(0, 1), (1, 0)], [(0, 1), (0, 2), (1, 2)], [(2, 0), (1, 0)], [(0, 1), (0, 1), (0, 1)],
         [(1, 1), (0, 1)], [(1, 2), (2, 1), (1, 2)]]


def ranks(vc, total, shared=None):
    C = vc.mod("testing.dummy_comm").DummyComm
    shared = {} if shared is None else shared
    return [C(rank=r, total_ranks=total, buffer_dict=shared) for r in range(total)]


def early(vc, known=False):
    E = vc.mod("testing.dummy_comm").ConcurrencyError
    return (E, IndexError) if known else E


def same(vc, got, expected, label):
    vc.prove_shape(got.shape, expected.shape, label)
    for p in vc.indices(expected.shape):
        vc.prove_eq(vc.at(got, p), vc.at(expected, p), label)


def messages(vc, plan):
    """every interleaving of the sends (in order for each sender) and the receives"""
    c = ranks(vc, 3)
    n = vc.int("n", 1, small=3)
    sent = {}
    waiting = {}
    todo = list(range(len(plan)))
    step = 0
    while todo or any(waiting.values()):
        # a receive of any pair with a message under way, or the next send of any sender
        ready = [k for k in waiting if waiting[k]]
        firsts = {}
        for m in todo:
            firsts.setdefault(plan[m][0], m)
        options = [("send", m) for m in firsts.values()] + [("recv", k) for k in ready]
        what, x = vc.choice("step%d" % step, options)
        step += 1
        if what == "send":
            todo.remove(x)
            a, b = plan[x]
            data = vc.array("message%d" % x, (n, 2))
            buf = snapshot(vc, data)
            if vc.choice("how%d" % x, ["Send", "Isend"]) == "Send":
                c[a].Send(buf, b)
            else:
                c[a].Isend(buf, b).wait()
            same(vc, buf, data, "sending does not modify the data")
            buf[...] = 0.0  # the buffer is the sender's again
            waiting.setdefault((a, b), []).append(data)
        else:
            a, b = x
            data = waiting[x].pop(0)
            buf = vc.array("old%d" % step, (n, 2))
            if vc.choice("receive%d" % step, ["Recv", "Irecv"]) == "Recv":
                c[b].Recv(buf, a)
            else:
                c[b].Irecv(buf, a).wait()
            same(vc, buf, data, "messages between two ranks arrive in the order and with the content they were sent with")
            buf[...] = 1.0
    for a, b in set(plan):
        buf = vc.array("last", (n, 2))
        before = snapshot(vc, buf)
        vc.expect_raises(early(vc, known=True), lambda: c[b].Recv(buf, a), "a message is received once")
        same(vc, buf, before, "nothing is received without a message")


def immediate(vc, pairs):
    """requests complete when they are waited for, in any order between different pairs"""
    c = ranks(vc, 3)
    n = vc.int("n", 1, small=3)
    bufs, datas, requests = [], [], []
    post_first = vc.bool("receives are posted first")

    def post():
        for k, (a, b) in enumerate(pairs):
            bufs.append(vc.array("old%d" % k, (n,), "int32"))
            requests.append(c[b].Irecv(bufs[k], a, tag=k))

    def send():
        for k, (a, b) in enumerate(pairs):
            datas.append(vc.array("data%d" % k, (n,), "int32"))
            r = c[a].Isend(datas[k], b, tag=k)
            if vc.bool("wait for send %d" % k):
                r.wait()

    (post(), send()) if post_first else (send(), post())
    order = list(range(len(pairs)))
    if vc.bool("backwards"):
        order.reverse()
    for k in order:
        requests[k].wait()
    for k in order:
        same(vc, bufs[k], datas[k], "the request receives the message of its rank")


def order_of(vc, total, calls, root_first):
    """an order of (rank, call) in which every rank makes its calls in order, and the root
    makes each call before (or after) all others"""
    done = [0] * total
    step = 0
    while any(d < calls for d in done):
        if root_first:
            ok = [r for r in range(total) if done[r] < calls and (r == 0 or done[r] < done[0])]
        else:
            ok = [r for r in range(total) if done[r] < calls and (
                (r == 0 and all(done[o] > done[0] for o in range(1, total))) or (r and done[r] == done[0]))]
        r = vc.choice("turn%d" % step, ok)
        step += 1
        yield r, done[r]
        done[r] += 1


def broadcast(vc, total, calls):
    c = ranks(vc, total)
    if total > 2 and calls > 1:
        total = 3
        c = ranks(vc, total)
    values = [["a", "b"], {"k": 1}][:calls]
    for r, k in order_of(vc, total, calls, True):
        got = c[r].bcast(values[k] if r == 0 else vc.choice("own", [None, "other"]))
        vc.prove(got == [["a", "b"], {"k": 1}][k], "every rank gets the root's value of the same call")


def scatter(vc, total, calls, dtype):
    c = ranks(vc, total)
    n = vc.int("n", 1, small=3)
    arrays = [vc.array("global%d" % k, (total, n, 2), dtype) for k in range(calls)]
    for r, k in order_of(vc, total, calls, True):
        recv = vc.array("old%d%d" % (r, k), (n, 2), dtype)
        if r == 0:
            buf = snapshot(vc, arrays[k])
            c[r].Scatter(buf, recv, root=0)
            same(vc, buf, arrays[k], "scattering does not modify the data")
            buf[...] = 0
        else:
            c[r].Scatter(None, recv, root=0)
        for p in vc.indices((n, 2)):
            vc.prove_eq(vc.at(recv, p), vc.at(arrays[k], (r,) + p), "every rank gets its piece of the root's array of the same call")
        recv[...] = 1


def gather(vc, total, calls, dtype):
    c = ranks(vc, total)
    n = vc.int("n", 1, small=3)
    sent = {}
    for r, k in order_of(vc, total, calls, False):
        sent[r, k] = vc.array("piece%d%d" % (r, k), (n, 2), dtype)
        buf = snapshot(vc, sent[r, k])
        recv = vc.array("old%d" % k, (total, n, 2), dtype) if r == 0 else None
        c[r].Gather(buf, recv, root=0)
        same(vc, buf, sent[r, k], "gathering does not modify the data")
        buf[...] = 0
        if r == 0:
            for q in range(total):
                for p in vc.indices((n, 2)):
                    vc.prove_eq(vc.at(recv, (q,) + p), vc.at(sent[q, k], p), "the root gets every rank's data of the same call")


def too_early(vc, what):
    """a call that needs another rank to have gone first says so, and works once it has"""
    c = ranks(vc, 2)
    n = vc.int("n", 1, small=3)
    data, more = vc.array("data", (n,)), vc.array("more", (n,))
    buf = vc.array("old", (n,))
    before = snapshot(vc, buf)
    E = early(vc, known=what in ("second recv", "bcast", "scatter"))
    for attempt in range(vc.choice("attempts", [1, 2])):
        if what == "gather":
            recv = vc.array("global", (2, n))
            old = snapshot(vc, recv)
            vc.expect_raises(E, lambda: c[0].Gather(data, recv, root=0), "gathering before the others is noticed")
            same(vc, recv, old, "nothing is gathered too early")
            continue
        if what == "second recv" and attempt == 0:
            c[0].Send(more, 1)
            c[1].Recv(buf, 0)
            before = snapshot(vc, buf)
        call = {
            "recv": lambda: c[1].Recv(buf, 0), "second recv": lambda: c[1].Recv(buf, 0), "irecv": lambda: c[1].Irecv(buf, 0).wait(),
            "bcast": lambda: c[1].bcast(None), "scatter": lambda: c[1].Scatter(None, buf, root=0)}[what]
        vc.expect_raises(E, call, "a call before the rank it depends on is noticed")
        same(vc, buf, before, "nothing is received too early")
    if what == "gather":
        c[1].Gather(more, None, root=0)
        c[0].Gather(data, recv, root=0)
        for p in vc.indices((n,)):
            vc.prove_eq(vc.at(recv, (0,) + p), vc.at(data, p), "gathering works after the others")
            vc.prove_eq(vc.at(recv, (1,) + p), vc.at(more, p), "gathering works after the others")
    elif what not in ("bcast", "scatter"):
        c[0].Send(data, 1)
        c[1].Recv(buf, 0)
        same(vc, buf, data, "the message is received once it is sent")


def other_root(vc):
    c = ranks(vc, 2)
    data = vc.array("data", (2, 3))
    vc.expect_raises(NotImplementedError, lambda: c[0].bcast("x", root=1), "broadcasting from another root is refused")
    vc.expect_raises(NotImplementedError, lambda: c[0].Scatter(data, vc.array("r", (3,)), root=1), "scattering from another root is refused")


def contiguous(vc):
    """data which is not contiguous is refused, as MPI would refuse it, and not sent"""
    c = ranks(vc, 2)
    n = 4
    whole = vc.array("whole", (n, n))
    if vc.symbolic:
        vc.e.objs["contig"] = vc.e.objs["f_contig"] = False
    part = whole[1:-1, 1:-1]
    ok = vc.array("ok", (2, 2))
    before = snapshot(vc, whole)
    for fn in (lambda: c[0].Send(part, 1), lambda: c[0].Isend(part, 1), lambda: c[1].Gather(part, None, root=0),
               lambda: c[0].Scatter(whole[:2, 1:-1], vc.array("r", (2,)), root=0)):
        vc.expect_raises(ValueError, fn, "sending data which is not contiguous is refused")
    vc.expect_raises(early(vc), lambda: c[1].Recv(ok, 0), "refused data is not sent")
    c[0].Send(ok, 1)
    vc.expect_raises(ValueError, lambda: c[1].Recv(part, 0), "receiving into data which is not contiguous is refused")
    same(vc, whole, before, "a refused call modifies nothing")
    got = vc.array("got", (2, 2))
    c[1].Recv(got, 0)
    same(vc, got, ok, "a refused receive does not take the message")


def separate(vc):
    """two simulations do not hear of each other"""
    a, b = ranks(vc, 2), ranks(vc, 2)
    n = vc.int("n", 1, small=3)
    data, other = vc.array("data", (n,)), vc.array("other", (n,))
    buf = vc.array("old", (n,))
    a[0].Send(data, 1)
    vc.expect_raises(early(vc), lambda: b[1].Recv(buf, 0), "another simulation's message does not arrive")
    b[0].Send(other, 1)
    b[1].Recv(buf, 0)
    same(vc, buf, other, "each simulation has its own messages")
    a[1].Recv(buf, 0)
    same(vc, buf, data, "each simulation has its own messages")
    a[0].bcast(1)
    b[0].bcast(2)
    vc.prove(a[1].bcast(None) == 1 and b[1].bcast(None) == 2, "each simulation has its own broadcasts")


def identity(vc):
    total = vc.int("total", 1, small=6)
    r = vc.int("rank", 0, total - 1)
    c = vc.mod("testing.dummy_comm").DummyComm(rank=r, total_ranks=total, buffer_dict={})
    vc.prove(c.Get_rank() == r, "the rank is the one given")
    vc.prove(c.Get_size() == total, "the number of ranks is the one given")
    c.barrier()


def known_finding_present(line):
    import numpy

    from pyvc.runner import fresh_package

    fresh_package()
    from fv3gfs.util.testing.dummy_comm import ConcurrencyError, DummyComm

    shared = {}
    a, b = (DummyComm(rank=r, total_ranks=2, buffer_dict=shared) for r in range(2))
    x, y = numpy.zeros(1), numpy.ones(1)
    try:
        if "Gather" in line:
            for k in range(2):
                b.Gather(y, None, root=0)
                a.Gather(x, numpy.zeros((2, 1)), root=0)
                if k == 0:
                    a.Gather(x, numpy.zeros((2, 1)), root=0)
        elif "Recv" in line:
            a.Send(x, 1)
            b.Recv(y, 0)
            b.Recv(y, 0)
        else:
            b.bcast(None)
    except ConcurrencyError:
        return False
    except IndexError:
        pass
    return True
