"""C21: a Zarr store receives every rank's data at its place.

The store is a ghost (ghost_zarr): it records which rank writes what where.  The root's
run and the run of an arbitrary other rank are executed one after the other, each in its
own instance of the package; what the root broadcasts is what the other rank receives.
"""
import datetime

from .c12_scatter import prove_unchanged
from .ghost_zarr import *

DIMS = [
    (Y, X), (X, Y), (Z, Y, X), (YI, X), (Y, XI), (X, Z, Y), (XI, YI), (ZI, YI, XI), ("yland_interface", X, YI),
]
TYPES = ["float64", "float32", "int32"]


def units(tier):
    u = []
    for k, d in enumerate(DIMS):
        for role in ("root", "client"):
            for when in ("first", "second", "any"):
                u.append(("stores", dict(dims=d, role=role, when=when, dtype=TYPES[k % 3])))
    for what in ("extra", "missing", "units", "dims", "order", "calendar"):
        for role in ("root", "client"):
            u.append(("refused", dict(what=what, role=role)))
    u += [("ownership", dict(dim=d)) for d in (Y, X, YI, XI)]
    u += [("real_store", dict(dims=d)) for d in (DIMS if tier == "thorough" else DIMS[2:5] + DIMS[7:])]
    return u


class Grid:
    """a cube of ly x lx ranks per tile with m cells per rank and dimension"""

    def __init__(self, vc):
        self.vc = vc
        self.ly, self.lx = vc.int("ly", 1, small=3), vc.int("lx", 1, small=3)
        self.m = {}
        self.total = 6 * self.ly * self.lx

    def cells(self, dim):
        base = dim.replace("_interface", "")
        if base not in self.m:
            self.m[base] = self.vc.int("m_" + base, 1, small=3)
        return self.m[base]

    def partitioner(self, v):
        P = v.mod("partitioner")
        return P.CubedSpherePartitioner(P.TilePartitioner((self.ly, self.lx)))

    def position(self, role):
        vc = self.vc
        if role == "root":
            return 0, 0, 0, 0
        t, j, i = vc.int("t", 0, 5), vc.int("j", 0, self.ly - 1), vc.int("i", 0, self.lx - 1)
        rank = t * self.ly * self.lx + j * self.lx + i
        vc.assume(rank > 0)
        return rank, t, j, i

    def piece(self, dims):
        return tuple(self.cells(d) + n_shared(d) for d in dims)

    def extent(self, dims):
        return tuple(self.cells(d) * factor(d, self.ly, self.lx) + n_shared(d) for d in dims)

    def owned(self, dims, where):
        """(first point, number of points) that the rank at `where` stores, per dimension"""
        out = []
        for d in dims:
            p, n = pos(d, where[2], where[3]), factor(d, self.ly, self.lx)
            if n_shared(d) and p != n - 1:
                out.append((p * self.cells(d), self.cells(d)))
            else:
                out.append((p * self.cells(d), self.cells(d) + n_shared(d)))
        return out


def quantity(vc, v, name, dims, extent, dtype, units="K"):
    origin = tuple(vc.int("a%s_%d" % (name, k), 0, small=2) for k in range(len(dims)))
    after = tuple(vc.int("b%s_%d" % (name, k), 0, small=2) for k in range(len(dims)))
    data = vc.array(name, tuple(o + e + b for o, e, b in zip(origin, extent, after)), dtype)
    return v.mod("quantity").Quantity(data, dims=dims, units=units, origin=origin, extent=extent)


NAMES = ("air", "wind")  # one is stored before, one after the time


class Scene:
    def __init__(self, vc, role, dims, dtype, main=NAMES[0]):
        self.vc, self.role = vc, role
        self.g = Grid(vc)
        self.where = self.g.position(role)
        self.spec = {n: (dims if n == main else (Y, X), dtype if n == main else "float64") for n in NAMES}
        self.main = main
        self.store = Store()
        self.open_group, self.cftime = install(vc, self.store)
        self.calls = []
        self.times = [Time(vc, "2016-08-%02d 00:00:00" % (k + 1)) for k in range(4)]

    def start(self, root):
        self.v = v = self.vc if root else self.vc.process()
        self.comm = Comm(self.vc, 0 if root else self.where[0], self.g.total, root, self.calls)
        self.open_group.who = self.comm.who
        self.monitor = v.mod("zarr_monitor").ZarrMonitor("a store", self.g.partitioner(v), mode="w", mpi_comm=self.comm)

    def state(self, root, step):
        tag = "%s%d" % ("root" if root else "", step)
        q = {}
        for n in NAMES if root else NAMES[::-1]:
            dims, dtype = self.spec[n]
            q[n] = quantity(self.vc, self.v, n + tag, dims, self.g.piece(dims), dtype)
        q["time"] = self.times[step]
        return q

    def skip(self, steps):
        """as if any number of further stores had happened before: the invariant of the
        monitor is that after n stores all writers and arrays are at time n"""
        w = getattr(self.monitor, "_writers", None)
        if not isinstance(w, dict):
            raise self.vc.unsupported("the monitor has no dictionary of writers")
        for name, x in w.items():
            if not hasattr(x, "i_time") or not isinstance(getattr(x, "array", None), Handle):
                raise self.vc.unsupported("a writer without time index and array")
            x.i_time = steps
            if self.comm.who.is_root:
                x.array._stored.shape[0] = steps
            x.array._shape = (steps,) + x.array._shape[1:]

    def at_step(self, steps):
        for name, x in self.monitor._writers.items():
            self.vc.prove(x.i_time == steps, "every store moves every variable one step on")
            self.vc.prove(x.array._stored.shape[0] == steps, "arrays have one entry per step")


def stores(vc, dims, role, when, dtype):
    s = Scene(vc, role, dims, dtype, NAMES[vc.choice("main", [0, 1])] if when == "first" else NAMES[len(dims) % 2])
    steps = vc.int("steps", 1, small=3) if when == "any" else {"first": 0, "second": 1}[when]
    state = mine = None
    before = {}
    for root in (True, False):
        if not root and role == "root":
            continue
        s.start(root)
        last = 0
        if when != "first":
            s.monitor.store(s.state(root, 0))
            last = 1
        if when == "any":
            if vc.symbolic:
                s.skip(steps)
            else:
                for k in range(1, steps):
                    s.monitor.store(dict(s.state(root, 0), time=Time(vc, "2016-08-02 %02d:00:00" % k)))
        for a in s.store.arrays.values():
            if root:
                before[a.name] = (dict(a.attrs), a.chunks, a.dtype)
                a.n_root = len(a.writes)
            else:
                a.n_client = len(a.writes)
        mine = s.state(root, last)
        copies = {n: snapshot(vc, q.data) for n, q in mine.items() if n != "time"}
        s.monitor.store(mine)
        if when == "any" and vc.symbolic:
            s.at_step(steps + 1)
        for n, c in copies.items():
            prove_unchanged(vc, mine[n].data, c, "storing does not modify the state")
    s.comm.done()
    vc.prove([tuple(x) for x in s.store.opened] == [("a store", "w")], "the store is opened once, by the root, as requested")
    vc.prove(set(s.store.arrays) == set(NAMES) | {"time"}, "the store has one array per name")
    for name in NAMES:
        array_is_right(s, name, steps, before.get(name))
        writes_are_right(s, name, steps, mine[name], copies[name])
    time_is_right(s, steps, mine["time"])


def new_writes(s, a):
    n = getattr(a, "n_root", 0) if s.role == "root" else getattr(a, "n_client", None)
    return a.writes[n if n is not None else 0:]


def array_is_right(s, name, steps, before):
    vc, a, (dims, dtype) = s.vc, s.store.arrays[name], s.spec[name]
    vc.prove_shape(a.shape, (steps + 1, 6) + s.g.extent(dims), "an array is time x tile x the tile's extent")
    vc.prove(vc.np.dtype(a.dtype) == vc.np.dtype(dtype), "an array has the quantity's type")
    vc.prove(
        dict(a.attrs) == {"_ARRAY_DIMENSIONS": ["time", "tile"] + list(dims), "units": "K"},
        "an array has the dimensions time, tile and the quantity's own, and its attributes",
    )
    vc.prove(a.chunks is not None, "chunks are not left to Zarr, which lets them span ranks")
    vc.prove(a.chunks[1] == 1, "no chunk spans tiles")
    for c, d in zip(a.chunks[2:], dims):
        if d in HORIZ:
            m, n = s.g.cells(d), factor(d, s.g.ly, s.g.lx)
            if n > 1:
                if c != m:
                    vc.prove(m % c == 0, "no chunk spans ranks")
                else:
                    vc.prove(True, "no chunk spans ranks")
    if before is not None and before[0]:
        vc.prove(before == (dict(a.attrs), a.chunks, a.dtype), "later stores do not change attributes")


def writes_are_right(s, name, steps, q, content):
    vc, a, (dims, dtype) = s.vc, s.store.arrays[name], s.spec[name]
    own = s.g.owned(dims, s.where)
    mine = [w for w in new_writes(s, a) if w.rank is s.comm.who]
    target = [steps, s.where[1]] + [(p, p + n) for p, n in own]
    for w in mine:
        for got, want in zip(w.index, target):
            lo, hi = got if isinstance(got, tuple) else (got, got + 1)
            a0, a1 = want if isinstance(want, tuple) else (want, want + 1)
            vc.prove(vc.all([lo >= a0, hi <= a1]), "a rank only writes its own part of the current step")
    for k in vc.indices([n for p, n in own]):
        point = [steps, s.where[1]] + [p + x for (p, n), x in zip(own, k)]
        for w in reversed(mine):
            inner, inside_ = [], True
            for got, p in zip(w.index, point):
                if isinstance(got, tuple):
                    inside_ = bool(vc.all([p >= got[0], p < got[1]])) and inside_
                    inner.append(p - got[0])
                else:
                    inside_ = bool(p == got) and inside_
            if inside_:
                value = vc.at(w.value, inner) if hasattr(w.value, "shape") else w.value
                vc.prove_eq(value, vc.at(content, [o + x for o, x in zip(q.origin, k)]), "each point holds what its owner stored")
                break
        else:
            vc.fail("each point is stored by its owner")


def time_is_right(s, steps, time):
    vc, a = s.vc, s.store.arrays["time"]
    vc.prove_shape(a.shape, (steps + 1,), "there is one time per step")
    vc.prove(list(a.attrs.get("_ARRAY_DIMENSIONS", ())) == ["time"], "times have the dimension time")
    vc.prove(a.attrs.get("calendar") == time.calendar, "times have the calendar of the state")
    new = a.writes[getattr(a, "n_root", 0):]
    vc.prove(len(new) >= 1, "every step's time is stored")
    for w in new:
        vc.prove(w.rank.is_root, "only the root stores the time")
        at = w.index[0]
        lo, hi = at if isinstance(at, tuple) else (at, at + 1)
        vc.prove(vc.all([lo == steps, hi == steps + 1]), "the time is stored at the current step")
        known = s.cftime.numbers(time, a.attrs.get("units"), a.attrs.get("calendar"))
        value = w.value if not hasattr(w.value, "shape") or not len(w.value.shape) else vc.at(w.value, (0,))
        vc.prove(len(known) > 0 and vc.any([vc.eq(value, n) for n in known]), "the stored time decodes to the state's time")


def refused(vc, what, role):
    """states with other names or metadata are refused before anything is stored"""
    s = Scene(vc, role, (Y, XI), "float64")
    for root in (True, False):
        if not root and role == "root":
            continue
        s.start(root)
        s.monitor.store(s.state(root, 0))
        for turn in range(2):
            now = {a.name: (len(a.writes), dict(a.attrs), list(a.shape)) for a in s.store.arrays.values()}
            n_calls = len(s.calls), s.comm.n
            bad = s.state(root, 1)
            q = bad["air"]
            if what == "extra":
                bad["water"] = quantity(vc, s.v, "water", (Y, X), s.g.piece((Y, X)), "float64")
            elif what == "missing":
                del bad[vc.choice("which", list(NAMES) + ["time"])]
            elif what == "units":
                bad["air"] = s.v.mod("quantity").Quantity(q.data, dims=q.dims, units="degC", origin=q.origin, extent=q.extent)
            elif what == "dims":
                bad["air"] = s.v.mod("quantity").Quantity(q.data, dims=(Y, X), units="K", origin=q.origin, extent=q.extent)
            elif what == "order":
                bad["air"] = s.v.mod("quantity").Quantity(q.data, dims=(XI, Y), units="K", origin=q.origin, extent=q.extent)
            else:
                bad["time"] = Time(vc, "2016-08-02 00:00:00", "gregorian")
            vc.expect_raises(ValueError, lambda: s.monitor.store(bad), "a state with other names or metadata is refused")
            for a in s.store.arrays.values():
                vc.prove(a.name in now, "a refused state leaves the store as it is")
                vc.prove(now[a.name][:2] == (len(a.writes), dict(a.attrs)), "a refused state leaves the store as it is")
                vc.prove_shape(a.shape, now[a.name][2], "a refused state leaves the store as it is")
            vc.prove((len(s.calls), s.comm.n) == n_calls, "a refused state leaves the other ranks alone")
        a = s.store.arrays["air"]
        a.n_root = len(a.writes) if root else getattr(a, "n_root", 0)
        a.n_client = len(a.writes)
        s.store.arrays["time"].n_root = len(s.store.arrays["time"].writes) if root else s.store.arrays["time"].n_root
        mine = s.state(root, 1)
        s.monitor.store(mine)
    s.comm.done()
    writes_are_right(s, "air", 1, mine["air"], mine["air"].data)
    time_is_right(s, 1, mine["time"])


def ownership(vc, dim):
    """the owned ranges of all ranks along a dimension partition the tile: lemma"""
    g = Grid(vc)
    n = factor(dim, g.ly, g.lx)
    e = g.extent((dim,))[0]
    own = lambda p: g.owned((dim,), (0, 0, p, p))[0]
    a, b = vc.int("a", 0, n - 1), vc.int("b", 0, n - 1)
    (sa, na), (sb, nb) = own(a), own(b)
    vc.prove(vc.all([sa >= 0, sa + na <= e]), "what a rank owns lies on the tile")
    if a < b:
        vc.assume((b - a - 1) * g.cells(dim) >= 0)  # a fact: product of nonnegatives
        vc.prove(sa + na <= sb, "no two ranks own the same point")
    if a == b - 1:
        vc.prove(sa + na == sb, "the ranks own all points")
    if a == n - 1:
        vc.prove(sa + na == e, "the ranks own all points")
    if a == 0:
        vc.prove(sa == 0, "the ranks own all points")


class Replay:
    """bounded: ranks run step by step after each other, with the real Zarr"""

    def __init__(self, rank, total, calls):
        self.rank, self.total, self.calls, self.n = rank, total, calls, 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.total

    def bcast(self, value, root=0):
        import pickle

        if self.rank == 0:
            self.calls.append(pickle.dumps(value))
            return value
        self.n += 1
        return pickle.loads(self.calls[self.n - 1])

    def barrier(self):
        pass

    Barrier = barrier


def real_store(vc, dims):
    """bounded: all ranks, several steps, the real Zarr and cftime libraries"""
    import tempfile

    import cftime
    import zarr

    g = Grid(vc)
    Z = vc.mod("zarr_monitor")
    n_steps = vc.int("n_steps", 1, 3)
    kinds = [cftime.DatetimeNoLeap, cftime.DatetimeJulian, datetime.datetime, cftime.Datetime360Day]
    T = vc.choice("calendar", [0, 1, 3])
    times = [kinds[T](2016, 2, 28, 23, 59, 50 + k) for k in range(n_steps)]
    with tempfile.TemporaryDirectory(prefix="verif-c21-") as d:
        calls, monitors, wanted = [], [], {}
        for rank in range(g.total):
            monitors.append(Z.ZarrMonitor(d + "/store", g.partitioner(vc), mode="w", mpi_comm=Replay(rank, g.total, calls)))
        for step in range(n_steps):
            order = list(range(1, g.total))
            vc.rng.shuffle(order)
            for rank in [0] + order:
                t, r = divmod(rank, g.ly * g.lx)
                where = (rank, t) + divmod(r, g.lx)
                q = quantity(vc, vc, "q", dims, g.piece(dims), "float64")
                q2 = quantity(vc, vc, "r", (Y, X), g.piece((Y, X)), "int32", units="m")
                monitors[rank].store({"wind": q, "time": times[step], "air": q2})
                for n, x, dd in (("wind", q, dims), ("air", q2, (Y, X))):
                    own = g.owned(dd, where)
                    for k in vc.indices([l for p, l in own]):
                        wanted[(n, step, t) + tuple(p + i for (p, l), i in zip(own, k))] = x.view[k]
        got = zarr.open_group(d + "/store", mode="r")
        vc.prove(set(got.array_keys()) == {"wind", "air", "time"}, "the store has one array per name")
        data = {n: got[n][:] for n in ("wind", "air")}
        vc.prove_shape(data["wind"].shape, (n_steps, 6) + g.extent(dims), "an array is time x tile x the tile's extent")
        vc.prove(len(wanted) == data["wind"].size + data["air"].size, "the ranks own all points")
        for key, value in wanted.items():
            vc.prove_eq(data[key[0]][key[1:]], value, "each point holds what its owner stored")
        tt = got["time"]
        back = cftime.num2date(tt[:], tt.attrs["units"], tt.attrs["calendar"])
        vc.prove(list(back) == times, "the stored times decode to the states' times")
        vc.prove(got["wind"].attrs["_ARRAY_DIMENSIONS"] == ["time", "tile"] + list(dims), "dimensions")


real_store.mode = "bounded"
real_store.runs = 6
