"""C14: states are scattered and gathered name by name.

The number of names is bounded (0..3 or 6, every subset given in the receive state); sizes,
contents, layouts and ranks are universal.  Scatter and gather run for real (C12, C13).
"""
import datetime

from .c13_gather import *

LEVEL = "exploration"
NAMES = ["first", "second", "third", "u", "v", "w"]
DIMS_OF = {"first": (Y, X), "second": (Z, YI), "third": (XI,), "u": (Y, X), "v": (X,), "w": (Z, YI), "other": (Y, X)}
TYPE_OF = {"first": "float64", "second": "float32", "third": "int32", "u": "float64", "v": "float64", "w": "float32", "other": "float64"}
T_SENT, T_OLD, T_OWN = datetime.datetime(2016, 8, 1, 0, 15), datetime.datetime(2001, 1, 1), datetime.datetime(2005, 1, 1)


def units(tier):
    u = []
    for kind in ("tile", "cube"):
        for n, given in [(0, None), (0, 0), (1, None), (1, 0), (1, 1), (2, None), (2, 0), (2, 1), (2, 2), (2, 3), (3, 5), (6, 21)]:
            for sent_time in (False, True):
                for role in ("root", "client"):
                    u.append(("scatter_state", dict(kind=kind, n=n, given=given, time=sent_time, role=role)))
                # only the root's state matters, whatever other ranks pass
                u.append(("scatter_state", dict(kind=kind, n=n, given=given, time=sent_time, role="client", own=n % 2 == 0)))
                u.append(("gather_state", dict(kind=kind, n=n, given=given, time=sent_time)))
            u.append(("gather_state_client", dict(kind=kind, n=n, given=given)))
        u.append(("root_needs_state", dict(kind=kind)))
    return u


class States:
    def __init__(self, vc, kind):
        self.ly, self.lx = vc.int("ly", 1, small=3), vc.int("lx", 1, small=3)
        self.cells = {d: vc.int("m_" + d, 1, small=3) for d in (Y, X, Z)}
        self.kind, self.vc = kind, vc

    def domain(self, name):
        D = Domain.__new__(Domain)
        dims = DIMS_OF[name]
        D.vc, D.dims, D.kind, D.ly, D.lx = self.vc, dims, self.kind, self.ly, self.lx
        D.m = [self.cells[d.replace("_interface", "")] for d in dims]
        D.n_tiles = 6 if self.kind == "cube" else 1
        D.total = D.n_tiles * D.ly * D.lx
        D.piece = tuple(m + n_shared(d) for d, m in zip(dims, D.m))
        D.ext = tuple(m * factor(d, D.ly, D.lx) + n_shared(d) for d, m in zip(dims, D.m))
        D.gdims = ((TILE,) if self.kind == "cube" else ()) + dims
        D.gext = ((6,) if self.kind == "cube" else ()) + D.ext
        return D


def received(vc, v, S, names, given, whole, old_time):
    """the receive state that is passed in, its snapshots and an entry of its own"""
    if given is None:
        return None, {}, {}
    state, before = {}, {}
    for k, name in enumerate(names + ["other"]):
        if name == "other" or given >> k & 1:
            D = S.domain(name)
            args = (D.gdims, D.gext) if whole else (D.dims, D.piece)
            q = quantity(v, "r_" + name, args[0], args[1], TYPE_OF[name], pad=name == "other")
            state[name], before[name] = q, snapshot(vc, q.data)
    own = dict(state)
    if old_time:
        state["time"] = T_OLD
    return state, before, own


def scatter_state(vc, kind, n, given, time, role, own=None):
    S = States(vc, kind)
    names = NAMES[:n]
    D0 = S.domain("first")
    where = (0, 0, 0, 0) if role == "root" else D0.position()
    if role == "client":
        vc.assume(where[0] > 0)
    vc.loop_mode("witness", where[0])
    shared = Collective()
    sent = {name: quantity(vc, name, S.domain(name).gdims, S.domain(name).gext, TYPE_OF[name], pad=False) for name in names}
    sent0 = {k: snapshot(vc, q.data) for k, q in sent.items()}
    if time:
        sent["time"] = T_SENT
    sent_keys = list(sent)
    old_time = given is not None and vc.bool("old_time")
    comm = CollectiveComm(vc, 0, D0.total, shared, watch=where[0])
    state = None
    if role == "root":
        state, before, given_to = received(vc, vc, S, names, given, False, old_time)
    got = D0.communicator(vc, comm).scatter_state(sent, state) if state is not None else D0.communicator(vc, comm).scatter_state(sent)
    if role == "client":
        v = vc.process()
        state, before, given_to = received(vc, v, S, names, given, False, old_time)
        comm = CollectiveComm(v, where[0], D0.total, shared)
        c = D0.communicator(v, comm)
        args = {} if state is None else {"recv_state": state}
        if own is not None:
            passed = {"time": T_OWN} if own else {}
            for name in ["w", "first", "not_sent"][: 2 + own]:
                passed[name] = quantity(v, "own_" + name, (Y, "other"), (2, 3), "float32", units="other units")
            args["send_state"], passed_keys = passed, list(passed)
        got = c.scatter_state(**args)
        comm.done()
        if own is not None:
            vc.prove(list(passed) == passed_keys, "the state another rank passes is left alone")
    check_keys(vc, got, names, time, given, old_time)
    vc.prove(list(sent) == sent_keys, "the sent state keeps its entries")
    if state is not None:
        vc.prove(got is state, "a given receive state is filled and returned")
    for name in names:
        D = S.domain(name)
        q = got[name]
        if name in before:
            vc.prove(q is given_to[name], "given entries are filled in place")
        vc.prove(tuple(q.dims) == D.dims, "each name keeps its dimensions")
        for k in vc.indices(D.piece):
            vc.prove_eq(
                vc.at(q.data, compute(q, k)), vc.at(sent0[name], D.locate(where, k)),
                "each name holds the rank's piece of the quantity sent under it",
            )
        prove_unchanged(vc, sent[name].data, sent0[name], "the sent state is not modified")
    if "other" in before:
        vc.prove(got["other"] is given_to["other"], "other entries are left as they are")
        prove_unchanged(vc, got["other"].data, before["other"], "other entries are left as they are")
    for name in names[:1]:
        prove_independent(vc, got[name], [(sent[name], sent0[name])], "the received state shares no memory with the sent one")


def check_keys(vc, got, names, time, given, old_time):
    want = set(names) | ({"time"} if time or old_time else set()) | ({"other"} if given is not None else set())
    vc.prove(set(got) == want, "the state holds exactly the sent names, its own entries and the time")
    if time or old_time:
        vc.prove(got["time"] == (T_SENT if time else T_OLD), "the time is the root's, if it has one")


def gather_state(vc, kind, n, given, time):
    S = States(vc, kind)
    names = NAMES[:n]
    D0 = S.domain("first")
    where = D0.position()
    vc.loop_mode("witness", where[0])
    sent = {name: quantity(vc, name, S.domain(name).dims, S.domain(name).piece, TYPE_OF[name], pad=False) for name in names}
    sent0 = {k: snapshot(vc, q.data) for k, q in sent.items()}
    if time:
        sent["time"] = T_SENT
    sent_keys = list(sent)
    old_time = given is not None and vc.bool("old_time")
    parts, calls = {}, []

    def all_parts(sendbuf):
        name = names[len(calls)] if len(calls) < len(names) else None
        vc.prove(name is not None, "one gather per name")
        calls.append(name)
        D = S.domain(name)
        for k in vc.indices(D.piece):
            vc.prove_eq(vc.at(sendbuf, k), vc.at(sent0[name], k), "each name is gathered once, in order")
        parts[name] = vc.array("P_" + name, (D.total,) + D.piece, TYPE_OF[name])
        return parts[name]

    comm = CollectiveComm(vc, 0, D0.total, Collective(), parts=all_parts)
    state, before, given_to = received(vc, vc, S, names, given, True, old_time)
    c = D0.communicator(vc, comm)
    got = c.gather_state(sent, state) if state is not None else c.gather_state(sent)
    check_keys(vc, got, names, time, given, old_time)
    vc.prove(list(sent) == sent_keys, "the sent state keeps its entries")
    if state is not None:
        vc.prove(got is state, "a given receive state is filled and returned")
    for name in names:
        D = S.domain(name)
        q = got[name]
        if name in before:
            vc.prove(q is given_to[name], "given entries are filled in place")
        vc.prove(tuple(q.dims) == D.gdims, "each name has the global dimensions")
        for k in vc.indices(D.piece):
            p = D.locate(where, k)
            ok = vc.eq(vc.at(q.data, whole_index(q, p)), vc.at(parts[name], (where[0],) + k))
            if not vc.symbolic and not ok:
                ok = vc.any([vc.eq(q.data[whole_index(q, p)], parts[name][(o,) + kk]) for o, kk in owners(D, p)])
            vc.prove(ok, "each name holds the pieces sent under it")
        prove_unchanged(vc, sent[name].data, sent0[name], "the sent state is not modified")
    if "other" in before:
        vc.prove(got["other"] is given_to["other"], "other entries are left as they are")
        prove_unchanged(vc, got["other"].data, before["other"], "other entries are left as they are")


def gather_state_client(vc, kind, n, given):
    S = States(vc, kind)
    names = NAMES[:n]
    D0 = S.domain("first")
    where = D0.position()
    vc.assume(where[0] > 0)
    sent = {name: quantity(vc, name, S.domain(name).dims, S.domain(name).piece, TYPE_OF[name], pad=False) for name in names}
    sent0 = {k: snapshot(vc, q.data) for k, q in sent.items()}
    sent["time"] = T_SENT
    shared = Collective()
    for name in names:
        shared.calls.append(("Gather", {"size": size_of_piece(S.domain(name)), "dtype": sent[name].data.dtype}))
    comm = CollectiveComm(vc, where[0], D0.total, shared)
    state, before, given_to = received(vc, vc, S, names, given, True, False)
    c = D0.communicator(vc, comm)
    got = c.gather_state(sent, state) if state is not None else c.gather_state(sent)
    comm.done()
    for name in names:
        prove_unchanged(vc, sent[name].data, sent0[name], "the sent state is not modified")
    for name, data in before.items():
        vc.prove(state[name] is given_to[name], "other ranks' receive states are left alone")
        prove_unchanged(vc, state[name].data, data, "other ranks' receive states are left alone")
    if state is None:
        vc.prove(not got, "other ranks get nothing")


def root_needs_state(vc, kind):
    S = States(vc, kind)
    D = S.domain("first")
    comm = CollectiveComm(vc, 0, D.total, Collective(), watch=0)
    vc.expect_raises(TypeError, lambda: D.communicator(vc, comm).scatter_state(), "the root must provide a state")
    vc.prove(not comm.shared.calls, "nothing is sent without data")
