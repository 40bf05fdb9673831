"""Ghost Zarr and cftime: the assumed contract of a Zarr store that several ranks write to.

* a group holds named arrays; an array has a shape, chunks, a type, attributes and the data
  of all writes made to it through any handle;
* a handle knows the shape its array had when the handle was made (opened, created, resized
  through it or unpickled); writing outside of that shape, or values of another shape than
  the selected region, is an error;
* cftime.date2num(t, u, c) is a number from which u and c give back t.
The ghost records what is written where by which rank; it stores nothing.
"""
import sys
import types

from .common import *


class Write:
    def __init__(self, rank, index, value):
        self.rank, self.index, self.value = rank, index, value


class Stored:
    def __init__(self, name, shape, dtype, chunks, options):
        self.name, self.shape, self.dtype, self.chunks = name, list(shape), dtype, chunks
        self.options, self.attrs, self.writes, self.attr_log = options, {}, [], []


class Attributes:
    def __init__(self, vc, stored, who):
        self._vc, self._s, self._who = vc, stored, who

    def _changes(self):
        self._vc.prove(self._who.is_root, "only the root changes attributes in the store")

    def update(self, *a, **k):
        self._changes()
        self._s.attrs.update(*a, **k)

    put = update

    def __setitem__(self, k, v):
        self._changes()
        self._s.attrs[k] = v

    def __getitem__(self, k):
        return self._s.attrs[k]

    def get(self, k, default=None):
        return self._s.attrs.get(k, default)

    def asdict(self):
        return dict(self._s.attrs)

    def keys(self):
        return self._s.attrs.keys()

    def items(self):
        return self._s.attrs.items()

    def __iter__(self):
        return iter(self._s.attrs)

    def __len__(self):
        return len(self._s.attrs)

    def __contains__(self, k):
        return k in self._s.attrs


class Handle:
    """an array as one rank sees it"""

    def __init__(self, vc, stored, who):
        self._vc, self._stored, self._who = vc, stored, who
        self._shape = tuple(stored.shape)
        self.attrs = Attributes(vc, stored, who)

    def unpickled(self, vc, who):
        return Handle(vc, self._stored, who)

    shape = property(lambda self: self._shape)
    dtype = property(lambda self: self._stored.dtype)
    name = property(lambda self: "/" + self._stored.name)
    basename = property(lambda self: self._stored.name)
    ndim = property(lambda self: len(self._shape))

    @property
    def chunks(self):
        if self._stored.chunks is None:
            raise self._vc.unsupported("chunks chosen by Zarr")
        return self._stored.chunks

    def __len__(self):
        return self._vc.concrete(self._shape[0])

    def resize(self, *shape):
        vc = self._vc
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        vc.prove(self._who.is_root, "only the root resizes")
        vc.prove(len(shape) == len(self._stored.shape), "resizing keeps the number of dimensions")
        vc.prove(shape[0] >= self._stored.shape[0], "resizing keeps all stored times")
        for a, b in list(zip(shape, self._stored.shape))[1:]:
            vc.prove(a == b, "resizing only changes the time dimension")
        self._stored.shape = list(shape)
        self._shape = tuple(shape)

    def __setitem__(self, index, value):
        vc = self._vc
        if not isinstance(index, tuple):
            index = (index,)
        if any(i is Ellipsis for i in index):
            n = [k for k, i in enumerate(index) if i is Ellipsis][0]
            index = index[:n] + (slice(None),) * (self.ndim - len(index) + 1) + index[n + 1:]
        index = index + (slice(None),) * (self.ndim - len(index))
        if len(index) > self.ndim:
            raise IndexError("too many indices for array")
        full, lengths = [], []
        for i, n in zip(index, self._shape):
            if isinstance(i, slice):
                a = 0 if i.start is None else i.start
                b = n if i.stop is None else i.stop
                vc.prove(i.step in (None, 1), "stores use unit steps")
                vc.prove(vc.all([a >= 0, b <= n, a <= b]), "what is stored lies inside of the array as the rank sees it")
                full.append((a, b))
                lengths.append(b - a)
            elif vc.is_int(i):
                vc.prove(vc.all([i >= 0, i < n]), "what is stored lies inside of the array as the rank sees it")
                full.append(i)
            else:
                raise vc.unsupported("storing with index %r" % (i,))
        if hasattr(value, "shape") and len(value.shape):
            vc.prove_shape(value.shape, lengths, "stored values have the shape of the region they go to")
            value = value.copy()
        self._stored.writes.append(Write(self._who, full, value))

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise self._vc.unsupported("zarr array attribute " + name)

    def __getitem__(self, index):
        raise self._vc.unsupported("reading back from the store")


class Group:
    def __init__(self, vc, store, who):
        self._vc, self._store, self._who = vc, store, who

    def unpickled(self, vc, who):
        return Group(vc, self._store, who)

    def create_dataset(self, name, shape=None, dtype=None, chunks=None, **options):
        vc = self._vc
        vc.prove(self._who.is_root, "only the root creates arrays")
        if name in self._store.arrays:
            raise ValueError("path %r contains an array" % name)
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        if chunks is False:
            chunks = shape
        if chunks is None or chunks is True:
            chunks = None  # Zarr chooses any
        else:
            if not isinstance(chunks, (tuple, list)):
                chunks = (chunks,) * len(shape)
            chunks = tuple(chunks)
            vc.prove(len(shape) == len(chunks), "one chunk length per dimension")
            for c in chunks:
                vc.prove(c >= 1, "chunks are not empty")
        self._store.arrays[name] = s = Stored(name, shape, dtype, chunks, options)
        return Handle(vc, s, self._who)

    def __getitem__(self, name):
        return Handle(self._vc, self._store.arrays[name], self._who)

    def __contains__(self, name):
        return name in self._store.arrays

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise self._vc.unsupported("zarr group attribute " + name)


class Store:
    """what is shared between the ranks"""

    def __init__(self):
        self.arrays, self.opened = {}, []


class Who:
    def __init__(self, rank, is_root):
        self.rank, self.is_root = rank, is_root


class Comm:
    """one rank of the store's communicator; `calls` is what the root has broadcast so far"""

    def __init__(self, vc, rank, total, is_root, calls):
        self.vc, self._rank, self._total, self.calls = vc, rank, total, calls
        self.who = Who(rank, is_root)
        self.n = 0

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._total

    rank = property(Get_rank)
    size = property(Get_size)

    def _call(self, name, value=None, root=0):
        self.vc.prove(root == 0, "collectives use the root rank")
        if self.who.is_root:
            # what the others will see is what the value is now
            self.calls.append((name, value.unpickled(self.vc, self.who) if hasattr(value, "unpickled") else value))
            return value
        self.vc.prove(self.n < len(self.calls), "all ranks make the same collective calls")
        got, value = self.calls[self.n]
        self.n += 1
        self.vc.prove(got == name, "all ranks make the same collective calls in the same order")
        if hasattr(value, "unpickled"):
            shape = getattr(value, "_shape", None)
            value = value.unpickled(self.vc, self.who)
            if shape is not None:
                value._shape = shape
        return value

    def bcast(self, value, root=0):
        return self._call("bcast", value, root)

    def barrier(self):
        self._call("barrier")

    Barrier = barrier

    def done(self):
        if not self.who.is_root:
            self.vc.prove(self.n == len(self.calls), "all ranks make the same collective calls")


class Time:
    """a model time: only its calendar, its text and its encoding are known"""

    def __init__(self, vc, text, calendar="noleap"):
        self.vc, self.text, self.calendar = vc, text, calendar

    def __str__(self):
        return self.text

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise self.vc.unsupported("attribute %s of a time" % name)


def install(vc, store):
    """the package sees the ghost store and the ghost time encoding"""
    z = types.ModuleType("zarr")
    z.__file__ = __file__

    def open_group(where, mode="a", **k):
        who = open_group.who
        vc.prove(who.is_root, "only the root opens the store")
        store.opened.append((where, mode))
        return Group(vc, store, who)

    z.open_group = open_group
    z.storage = types.SimpleNamespace(MutableMapping=dict)
    z.Array, z.Group = Handle, Group

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise vc.unsupported("zarr." + name)

    z.__getattr__ = missing
    vc.stub("zarr", z)
    import cftime

    c = types.ModuleType("cftime")
    c.__dict__.update({k: v for k, v in cftime.__dict__.items()})
    c.encoded = {}

    def date2num(t, units=None, calendar=None, **k):
        if not isinstance(t, Time):
            return cftime.date2num(t, units=units, calendar=calendar, **k)
        n = len(c.encoded) + 1
        number = vc.real("encoded%d" % n)
        c.encoded[n] = (number, t, units, calendar)
        return number

    def numbers(time, units, calendar):
        """what the time is known to be encoded as with these units and calendar"""
        return [v for v, t, u, cal in c.encoded.values() if t is time and u == units and cal == calendar]

    c.date2num, c.numbers = date2num, numbers
    vc.stub("cftime", c)
    return open_group, c
