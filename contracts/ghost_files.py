"""Worlds with files for C23 and C25: a ghost of fsspec and xarray, and the real ones.

The ghost is the assumed contract of the parts of xarray and fsspec the package uses:
* a DataArray has values, dims, attrs; renaming and selecting give new arrays with attributes
  of their own; an opened variable is read from the file when its values are first used, and
  can not be read once the file is closed;
* a Dataset's variables agree in the lengths of their dimensions; a variable named like a
  dimension is a coordinate, not a data variable;
* a netCDF file gives back the variables of the Dataset written to it: names, dims, values,
  attributes and type; times are encoded and decoded exactly (with their calendar);
* decoding makes times of variables with time-like units, unless it is switched off.
"""
import datetime
import os as real_os
import posixpath
import re
import tempfile
import types

from .common import *
from .ghost_os import ModuleStub

TIME_LIKE = re.compile(r"^(days|hours|minutes|seconds|milliseconds|microseconds|nanoseconds)( since .*)?$")


def time_like(units):
    return isinstance(units, str) and bool(TIME_LIKE.match(units))


class Times:
    """what xarray makes of numbers with time-like units"""

    def __init__(self, vc, what):
        self.vc, self.what = vc, what


class Variable:
    """what a file holds under one name"""

    def __init__(self, dims, values, attrs, time=None):
        self.dims, self.values, self.attrs, self.time = tuple(dims), values, dict(attrs), time


class DataArray:
    def __init__(self, vc, values, dims, attrs, file=None, time=None):
        self._vc, self._values, self.dims, self._file, self._time = vc, values, tuple(dims), file, time
        self.attrs = dict(attrs)

    def _like(self, **changes):
        args = dict(values=self._values, dims=self.dims, attrs=self.attrs, file=self._file, time=self._time)
        args.update(changes)
        return DataArray(self._vc, **args)

    ndim = property(lambda self: len(self.dims))

    @property
    def shape(self):
        return () if self._time is not None else tuple(self._values.shape)

    @property
    def dtype(self):
        return self._values.dtype

    def load(self):
        if self._file is not None:
            if self._file.closed:
                raise ValueError("I/O operation on closed file.")
            self._values, self._file = self._values.copy(), None
        return self

    @property
    def values(self):
        if self._time is not None:
            self._vc.unsupported("values of a time")
        self.load()
        return self._values

    data = values

    def item(self):
        if self._time is not None:
            return self._time
        if self.dims:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self._vc.at(self.values, ())

    def rename(self, names=None, **kw):
        names = {**(names or {}), **kw}
        for k in names:
            if k not in self.dims:
                raise ValueError("cannot rename %r because it is not a variable or dimension" % (k,))
        dims = tuple(names.get(d, d) for d in self.dims)
        if len(set(dims)) != len(dims):
            raise ValueError("renamed dimensions are not unique")
        return self._like(dims=dims)

    def isel(self, **sel):
        out = self
        for d, i in sel.items():
            if d not in out.dims:
                raise ValueError("Dimensions {%r} do not exist" % d)
            if not self._vc.is_int(i):
                self._vc.unsupported("isel with %r" % (i,))
            k = out.dims.index(d)
            index = tuple(i if n == k else slice(None) for n in range(len(out.dims)))
            out = out._like(dims=out.dims[:k] + out.dims[k + 1:], values=out._values[index])
        return out

    def copy(self, deep=True):
        return self._like(values=self._values.copy() if deep and self._time is None else self._values)

    def __deepcopy__(self, memo):
        return self.copy()

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self._vc.unsupported("DataArray." + k)


class Dataset:
    def __init__(self, vc, variables, coords=()):
        self._vc, self._vars = vc, dict(variables)
        dims = {d for v in self._vars.values() for d in v.dims}
        self._coords = {n for n in self._vars if n in dims} | (set(coords) & set(self._vars))

    @property
    def data_vars(self):
        return {k: v for k, v in self._vars.items() if k not in self._coords}

    @property
    def variables(self):
        return dict(self._vars)

    @property
    def coords(self):
        return {k: v for k, v in self._vars.items() if k in self._coords}

    @property
    def dims(self):
        return {d: n for v in self._vars.values() for d, n in zip(v.dims, v.shape)}

    sizes = dims

    def __getitem__(self, k):
        if isinstance(k, (list, tuple)):
            return Dataset(self._vc, {n: self._vars[n] for n in k}, self._coords)
        return self._vars[k]

    def __contains__(self, k):
        return k in self._vars

    def __iter__(self):
        return iter(self.data_vars)

    def keys(self):
        return self.data_vars.keys()

    def items(self):
        return self.data_vars.items()

    def values(self):
        return self.data_vars.values()

    def __len__(self):
        return len(self.data_vars)

    def isel(self, indexers=None, **sel):
        sel = {**(indexers or {}), **sel}
        for d in sel:
            if d not in self.dims:
                raise ValueError("Dimensions {%r} do not exist" % d)
        return Dataset(self._vc, {n: v.isel(**{d: i for d, i in sel.items() if d in v.dims}) for n, v in self._vars.items()},
                       self._coords)

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        for n in names:
            if n not in self._vars and errors == "raise":
                raise ValueError("variable %r can not be found in this dataset" % n)
        return Dataset(self._vc, {n: v for n, v in self._vars.items() if n not in names}, self._coords)

    def load(self):
        for v in self._vars.values():
            v.load()
        return self

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def to_netcdf(self, path=None, *a, **k):
        if a or k:
            self._vc.unsupported("to_netcdf with other arguments")
        out = NetCDF({
            n: Variable(v.dims, None if v._time is not None else v.values.copy(), v.attrs, v._time) for n, v in self._vars.items()})
        if path is None:
            return out
        if not isinstance(path, Handle):
            self._vc.unsupported("to_netcdf to %r" % (path,))
        if path.remote:
            raise ValueError("Seek only available in read mode")
        path.write(out)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self._vc.unsupported("Dataset." + k)


class NetCDF:
    """the bytes of a netCDF file"""

    def __init__(self, variables):
        self.variables = variables


class Handle:
    """an open file; remote files opened for writing can not seek"""

    def __init__(self, vc, content, mode, remote=False):
        self.vc, self.content, self.mode, self.remote, self.closed = vc, content, mode, remote, False

    def write(self, data):
        self.check("w")
        if not isinstance(data, NetCDF) or self.content:
            self.vc.unsupported("writing other bytes")
        self.content.update(data.variables)

    def check(self, mode):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if mode not in self.mode and "+" not in self.mode:
            raise ValueError("file is not open for this")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def readline(self):
        self.check("r")
        if not isinstance(self.content, list):
            self.vc.unsupported("reading the bytes of a netCDF file")
        self.at = getattr(self, "at", -1) + 1
        return self.content[self.at] if self.at < len(self.content) else Line([])

    def __iter__(self):
        while True:
            line = self.readline()
            if not line.tokens:
                return
            yield line

    def readlines(self):
        return list(self)

    def __getattr__(self, k):
        if k.startswith("__") or k == "at":
            raise AttributeError(k)
        self.vc.unsupported("file." + k)


class Token:
    """a word of a line that reads as an integer"""

    def __init__(self, value):
        self.value = value

    def __pyvc_int__(self):
        return self.value

    def __int__(self):
        return self.value


class Line:
    """a line of words separated by white space"""

    def __init__(self, tokens):
        self.tokens = tokens

    def split(self, sep=None, maxsplit=-1):
        if sep is not None or maxsplit != -1:
            from pyvc.sym import Unsupported

            raise Unsupported("splitting a line at %r" % (sep,))
        return list(self.tokens)

    def strip(self, *a):
        return self


def same_times(times):
    return all(t is times[0] for t in times)


class GhostFiles:
    """files by name; writing makes them, reading gives back what was written"""

    def __init__(self, vc, remote=False):
        self.vc, self.files, self.opened = vc, {}, []
        self.remote = remote
        self.dirname = "gs://bucket/rundir" if remote else "/somewhere/rundir"
        fs = types.SimpleNamespace(
            isfile=lambda p: p in self.files, exists=lambda p: p in self.files,
            open=self.open, isdir=lambda p: p.rstrip("/") == self.dirname,
            makedirs=lambda *a, **k: None,
        )
        f = ModuleStub(vc, "fsspec", types, dict(
            get_fs_token_paths=lambda path, *a, **k: (fs, "token", [path]),
            AbstractFileSystem=object))
        path = ModuleStub(vc, "posixpath", posixpath, dict(
            exists=lambda p: not remote and p in self.files, isfile=lambda p: not remote and p in self.files),
            [k for k in dir(posixpath) if k not in ("exists", "isfile") and not k.startswith("__")])
        vc.stub("fsspec", f)
        vc.stub("os", ModuleStub(vc, "os", real_os, dict(path=path), ["fspath", "getcwd", "environ", "linesep", "sep", "dup", "dup2", "close"]))
        vc.stub("os.path", path)
        x = ModuleStub(vc, "xarray", types, dict(
            DataArray=self.data_array, Dataset=self.dataset, open_dataset=self.open_dataset, decode_cf=self.decode_cf))
        vc.stub("xarray", x)

    def open(self, name, mode="rb", *a, **k):
        if "w" in mode:
            self.files[name] = {}
        elif name not in self.files:
            raise FileNotFoundError(name)
        h = Handle(self.vc, self.files[name], mode, self.remote)
        self.opened.append((name, mode))
        return h

    def data_array(self, data=None, coords=None, dims=None, name=None, attrs=None, **k):
        if coords is not None or k or data is None or dims is None:
            self.vc.unsupported("DataArray with other arguments")
        if len(data.shape) != len(dims):
            raise ValueError("different number of dimensions on data and dims")
        return DataArray(self.vc, data, dims, attrs or {})

    def dataset(self, data_vars=None, coords=None, attrs=None):
        if coords is not None:
            self.vc.unsupported("Dataset with coordinates")
        out, lengths = {}, {}
        for n, v in (data_vars or {}).items():
            if not isinstance(v, DataArray):
                if not isinstance(v, datetime.datetime) and not hasattr(v, "calendar"):
                    self.vc.unsupported("Dataset with %r" % (v,))
                v = DataArray(self.vc, None, (), {}, time=v)
            for d, k in zip(v.dims, v.shape):
                if d in lengths and not bool(lengths[d] == k):
                    raise ValueError("conflicting sizes for dimension %r" % (d,))
                lengths[d] = k
            out[n] = v
        return Dataset(self.vc, out)

    def open_dataset(self, file, engine=None, use_cftime=None, decode_times=None, decode_timedelta=None, **k):
        if k:
            self.vc.unsupported("open_dataset with %r" % (k,))
        if not isinstance(file, Handle):
            if not isinstance(file, str):
                self.vc.unsupported("open_dataset of %r" % (file,))
            file = self.open(file)
        file.check("r")
        out = {n: DataArray(self.vc, v.values, v.dims, v.attrs, file=file if v.time is None else None,
                            time=None if v.time is None else Encoded(v.time)) for n, v in file.content.items()}
        return self._decode(Dataset(self.vc, out), use_cftime, decode_times, decode_timedelta)

    def decode_cf(self, obj, use_cftime=None, decode_times=True, decode_timedelta=None, **k):
        if k:
            self.vc.unsupported("decode_cf with %r" % (k,))
        return self._decode(obj, use_cftime, decode_times, decode_timedelta)

    def _decode(self, ds, use_cftime, decode_times, decode_timedelta):
        times = decode_times is None or bool(decode_times)
        deltas = times if decode_timedelta is None else bool(decode_timedelta)
        out = {}
        for n, v in ds._vars.items():
            if isinstance(v._time, Encoded):
                if times:
                    v = v._like(time=v._time.time if use_cftime else Numpy64(v._time.time))
            elif time_like(v.attrs.get("units")) and (times if "since" in v.attrs["units"] else deltas):
                v = v._like(values=Undecodable(v._values.shape), attrs={k: a for k, a in v.attrs.items() if k != "units"})
            out[n] = v
        return Dataset(self.vc, out, ds._coords)

    # -- for the contracts
    def put(self, name, variables):
        self.files[name] = dict(variables)

    def put_text(self, name, lines):
        self.files[name] = [Line(t) for t in lines]

    def path(self, name):
        return self.dirname + "/" + name

    def done(self):
        pass


class Encoded:
    """a time as a number with units and calendar, not decoded"""

    def __init__(self, time):
        self.time = time


class Numpy64:
    """numpy's own times: another type, for standard calendars only"""

    def __init__(self, time):
        self.time = time


class Undecodable:
    """values that were made times"""

    def __init__(self, shape):
        self.shape, self.dtype = shape, np_dtype("m8[ns]")

    def copy(self):
        return self


def np_dtype(s):
    import numpy

    return numpy.dtype(s)


class RealFiles:
    """the same with the real xarray, in a scratch directory or in fsspec's memory"""

    def __init__(self, vc, remote=False):
        import uuid

        self.vc, self.remote = vc, remote
        self.dir = tempfile.TemporaryDirectory(prefix="c23")
        self.dirname = "memory://c23%s" % uuid.uuid4().hex if remote else self.dir.name
        import fsspec

        self.fs = fsspec.get_fs_token_paths(self.dirname)[0]

    def path(self, name):
        return self.dirname + "/" + name

    def put(self, name, variables):
        import xarray

        ds = xarray.Dataset({n: xarray.DataArray(v.values, dims=v.dims, attrs=v.attrs) for n, v in variables.items()})
        contents = ds.to_netcdf()
        with self.fs.open(name, "wb") as f:
            f.write(contents)

    def put_text(self, name, lines):
        with self.fs.open(name, "w") as f:
            for n, t in enumerate(lines):
                words = [str(x.value) if isinstance(x, Token) else x for x in t]
                f.write(self.vc.rng.choice(["", "  ", "     "]) + "   ".join(words) + "\n")

    def done(self):
        if self.remote:
            try:
                self.fs.rm(self.dirname, recursive=True)
            except FileNotFoundError:
                pass
        self.dir.cleanup()


class files:
    def __init__(self, vc, remote=False):
        self.vc, self.remote = vc, remote

    def __enter__(self):
        self.f = GhostFiles(self.vc, self.remote) if self.vc.symbolic else RealFiles(self.vc, self.remote)
        return self.f

    def __exit__(self, *a):
        self.f.done()
