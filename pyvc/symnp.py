"""Symbolic stand-in for numpy: arrays with symbolic shapes.

An array is a view (affine index map) on a buffer; a buffer is a base content
function plus the list of writes made to it.  The semantics implemented here are
numpy's documented semantics for basic indexing, slicing, assignment, rot90/flip/
transpose etc.; they are TRUSTED, and cross-checked against the installed numpy by
pyvc.selftest (random programs, same operations on both) and by replaying a model
of every proved path on the real numpy.
Anything not modelled raises Unsupported (the unit is then undecided, never passed).
"""
import numpy as _np
import z3

from . import sym
from .sym import (
    ObligationFailed,
    SymBool,
    SymInt,
    SymReal,
    Unsupported,
    bool_z3,
    engine,
    int_z3,
    to_real,
)

LAZY_ALL = None


def _isint(x):
    return isinstance(x, (int, SymInt, _np.integer)) and not isinstance(x, bool)


def _canon_int(x):
    return x if isinstance(x, SymInt) else int(x)


def sym_if(c, a, b):
    return a if c else b


class Buf:
    def __init__(self, shape, dtype, base, name="buf", intvals=False, linear=False):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.base = base
        self.name = name
        self.writes = []  # (maps, shape, valuefn)
        self.linear = linear

    def version(self):
        return len(self.writes)

    def read(self, idx, version=None):
        e = engine()
        if e.loop is not None:
            e.loop.reads.add(id(self))
            e.loop.keep.append(self)
            if id(self) in e.loop.writes and id(self) not in e.loop.fresh:
                raise Unsupported("buffer read and written in a generic loop")
        n = len(self.writes) if version is None else version
        dropped = False
        for w in reversed(self.writes[:n]):
            k = w.locate(idx)
            if k is not None:
                return w.value(k)
            dropped = dropped or w.loop
        if dropped:
            # generic-iteration rule: this point was not written by the generic
            # iteration; the path on which the iteration covering it is the generic
            # one is explored separately
            m = e.objs.get("loop_mode")
            if m is not None and m[0] == "generic":
                raise sym.CoveredElsewhere()
        return self.base(idx)

    def touch_read(self):
        e = engine()
        if e.loop is not None:
            e.loop.reads.add(id(self))
            e.loop.keep.append(self)
            if id(self) in e.loop.writes and id(self) not in e.loop.fresh:
                raise Unsupported("buffer read and written in a generic loop")


class Write:
    def __init__(self, maps, shape, value, loop=None, cond=None):
        self.maps, self.shape, self.value = maps, shape, value
        self.loop = loop

    def locate(self, idx):
        """view index written, or None when idx is outside of the written region"""
        k = [0] * len(self.shape)
        for b, (off, va, step) in zip(idx, self.maps):
            if va is None:
                if not (b == off):
                    return None
            else:
                d = (b - off) if step > 0 else (off - b)
                s = abs(step)
                if s != 1:
                    q, r = divmod(d, s)
                    if not (r == 0):
                        return None
                    d = q
                if not (d >= 0):
                    return None
                if not (d < self.shape[va]):
                    return None
                k[va] = d
        return tuple(k)


class Flags:
    def __init__(self, arr):
        self._a = arr

    @property
    def writeable(self):
        return self._a._writeable

    @writeable.setter
    def writeable(self, value):
        self._a.setflags(write=value)

    def __setitem__(self, key, value):
        if key not in ("WRITEABLE", "W"):
            raise Unsupported("setting array flag %s" % key)
        self._a.setflags(write=value)

    def __getitem__(self, key):
        if key in ("C_CONTIGUOUS", "C", "CONTIGUOUS"):
            return self._a._c_contig()
        if key in ("F_CONTIGUOUS", "F"):
            return self._a._f_contig()
        if key in ("WRITEABLE", "W"):
            return self._a._writeable
        raise Unsupported("array flag %s" % key)

    @property
    def c_contiguous(self):
        return self["C_CONTIGUOUS"]

    @property
    def f_contiguous(self):
        return self["F_CONTIGUOUS"]


class ndarray:
    """symbolic numpy.ndarray"""

    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, buf, maps, shape, writeable=True):
        self._buf = buf
        self._maps = tuple(maps)
        self._shape = tuple(shape)
        self._writeable = writeable  # of this array object; views taken later inherit it

    # ---- attributes
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self._buf.dtype

    @property
    def size(self):
        n = 1
        for s in self._shape:
            n = n * s
        return n

    @property
    def flags(self):
        return Flags(self)

    @property
    def T(self):
        return self.transpose()

    @property
    def base(self):
        return None if self._identity() else self._buf

    @property
    def data(self):
        raise Unsupported("ndarray.data")

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def _identity(self):
        if len(self._shape) != len(self._buf.shape):
            return False
        for i, (off, va, step) in enumerate(self._maps):
            if va != i or step != 1 or not _same(off, 0):
                return False
            if not _same(self._shape[i], self._buf.shape[i]):
                return False
        return True

    def _c_contig(self):
        if self._identity():
            return True
        # an axis permutation or a reversed axis is contiguous only in degenerate
        # shapes; a sub-block may or may not be.  The verifier does not decide it: both
        # answers are explored (one demonic choice per path for all such views).
        return _contig_choice()

    def _f_contig(self):
        if self._identity() and self.ndim <= 1 or self.ndim and self.transpose()._identity():
            return True
        return _contig_choice("f_contig")

    # ---- reading
    def _bidx(self, vidx):
        out = []
        for off, va, step in self._maps:
            if va is None:
                out.append(off)
            else:
                out.append(off + step * vidx[va])
        return tuple(out)

    def _read(self, vidx, version=None):
        return self._buf.read(self._bidx(vidx), version)

    def _frozen(self):
        """(callable vidx->elem) of the current content"""
        v = self._buf.version()
        self._buf.touch_read()
        return lambda vidx: self._read(vidx, v)

    def _all_int(self):
        return self._buf.linear

    # ---- indexing
    def _index(self, key):
        """-> (maps, shape) of the selected view"""
        if not isinstance(key, tuple):
            key = (key,)
        for k in key:
            if isinstance(k, (list, _np.ndarray, ndarray, Where, BoolArray)):
                raise Unsupported("fancy indexing")
            if isinstance(k, (bool, SymBool, str)):
                raise Unsupported("index %r" % (k,))
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if sum(1 for k in key if k is Ellipsis) > 1:
            raise IndexError("an index can only have a single ellipsis ('...')")
        if n_real > self.ndim:
            raise IndexError(
                "too many indices for array: array is %d-dimensional, but %d were indexed"
                % (self.ndim, n_real)
            )
        full = []
        seen = False
        for k in key:
            if k is Ellipsis:
                full += [slice(None)] * (self.ndim - n_real)
                seen = True
            else:
                full.append(k)
        if not seen:
            full += [slice(None)] * (self.ndim - n_real)
        new_shape = []
        sel = {}  # old view axis -> ('int', i) | ('sl', new axis, start, step)
        ax = 0
        for k in full:
            if k is None:
                new_shape.append(1)
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                start, length, step = norm_slice(k, n)
                sel[ax] = ("sl", len(new_shape), start, step)
                new_shape.append(length)
            elif _isint(k) or hasattr(k, "__index__"):
                if not _isint(k):
                    k = k.__index__()
                k = _canon_int(k)
                i = k
                if i < 0:
                    i = i + n
                if i < 0 or i >= n:
                    raise IndexError(
                        "index %s is out of bounds for axis %d with size %s" % (k, ax, n)
                    )
                sel[ax] = ("int", i)
            else:
                raise IndexError(
                    "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                    "(`None`) and integer or boolean arrays are valid indices"
                )
            ax += 1
        maps = []
        for off, va, step in self._maps:
            if va is None:
                maps.append((off, None, 1))
            else:
                s = sel[va]
                if s[0] == "int":
                    maps.append((off + step * s[1], None, 1))
                else:
                    maps.append((off + step * s[2], s[1], step * s[3]))
        return maps, new_shape

    def __getitem__(self, key):
        if isinstance(key, Where):
            return key.select(self)
        if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], Where):
            return key[0].select(self)
        maps, shape = self._index(key)
        view = ndarray(self._buf, maps, shape, self._writeable)
        if len(shape) == 0 and not _has_ellipsis(key):
            return view._read(())  # numpy gives a scalar copy
        return view

    def __setitem__(self, key, value):
        maps, shape = self._index(key)
        self._write(maps, shape, value)

    def _write(self, maps, shape, value):
        e = engine()
        if not self._writeable:
            raise ValueError("assignment destination is read-only")
        buf = self._buf
        if buf.linear:
            buf.linear = False
        fn = broadcast_value(value, shape, buf.dtype)
        mapped = {va for _, va, _ in maps}
        for d, n in enumerate(shape):
            if d not in mapped and not (n > 0):
                return  # an empty selection along a new axis
        w = Write(tuple(maps), tuple(shape), fn)
        if e.loop is not None:
            w.loop = id(buf) not in e.loop.fresh
            if id(buf) in e.loop.reads and id(buf) not in e.loop.fresh:
                raise Unsupported("buffer read and written in a generic loop")
            e.loop.writes.add(id(buf))
            e.loop.keep.append(buf)
        buf.writes.append(w)

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        n = self._shape[0]
        return n if isinstance(n, int) else n.__index__()

    def _symlen(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        return self._shape[0]

    def __iter__(self):
        n = len(self)
        for i in range(n):
            yield self[i]

    # ---- shape manipulation
    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if axes is None or len(axes) == 0:
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(int(a) for a in axes)
        if len(axes) != self.ndim:
            raise ValueError("axes don't match array")
        axes = tuple(_norm_axis(a, self.ndim) for a in axes)
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("repeated axis in transpose")
        inv = {a: i for i, a in enumerate(axes)}
        maps = [(o, None if va is None else inv[va], s) for o, va, s in self._maps]
        return ndarray(self._buf, maps, [self._shape[a] for a in axes], self._writeable)

    def swapaxes(self, a, b):
        o = list(range(self.ndim))
        a, b = _norm_axis(a, self.ndim), _norm_axis(b, self.ndim)
        o[a], o[b] = o[b], o[a]
        return self.transpose(o)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        if order != "C":
            raise Unsupported("reshape order")
        return reshape(self, shape)

    def copy(self, order="C"):
        return array(self)

    def astype(self, dtype, copy=True, **kw):
        dtype = _np.dtype(dtype)
        f = self._frozen()
        src = self.dtype
        return make(self._shape, dtype, lambda idx: cast_elem(f(idx), src, dtype))

    def view(self, *a, **k):
        if a or k:
            raise Unsupported("ndarray.view")
        return ndarray(self._buf, self._maps, self._shape, self._writeable)

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        if a or self.ndim:
            raise Unsupported("item()")
        return self._read(())

    def tolist(self):
        if self.ndim == 0:
            return self._read(())
        return [x.tolist() if isinstance(x, ndarray) else x for x in self]

    def ravel(self):
        if self.ndim == 1:
            return self
        raise Unsupported("ravel")

    def squeeze(self, axis=None):
        raise Unsupported("squeeze")

    def __deepcopy__(self, memo):
        return array(self)

    def __copy__(self):
        return array(self)

    def setflags(self, write=None, align=None, uic=None):
        if align is not None or uic is not None:
            raise Unsupported("setflags")
        if write is None:
            return
        if write and not self._writeable:
            raise Unsupported("making a read-only array writeable again")
        self._writeable = bool(write)

    def __array__(self, *a, **k):
        raise Unsupported("symbolic array converted to a real numpy array")

    def __bool__(self):
        if self.ndim == 0:
            return bool(self._read(()))
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. "
            "Use a.any() or a.all()"
        )

    def __float__(self):
        raise Unsupported("float(array)")

    def __repr__(self):
        return "<symarray %s %s>" % (self._buf.name, self._shape)

    # ---- arithmetic (element-wise)
    def _ew(self, o, op, rev=False):
        return elementwise(op, o, self) if rev else elementwise(op, self, o)

    def __neg__(self):
        f = self._frozen()
        if _np.issubdtype(self.dtype, _np.bool_):
            raise TypeError("numpy boolean negative")
        lin = None
        if self.ndim == 0:
            return -f(())  # ufuncs on 0-d arrays give scalars
        return make(self._shape, self.dtype, lambda i: -f(i))

    def __pos__(self):
        return array(self)

    def __abs__(self):
        f = self._frozen()
        if self.ndim == 0:
            return abs(f(()))
        return make(self._shape, self.dtype, lambda i: abs(f(i)))

    def __add__(self, o):
        return self._ew(o, "add")

    def __radd__(self, o):
        return self._ew(o, "add", True)

    def __sub__(self, o):
        return self._ew(o, "sub")

    def __rsub__(self, o):
        return self._ew(o, "sub", True)

    def __mul__(self, o):
        return self._ew(o, "mul")

    def __rmul__(self, o):
        return self._ew(o, "mul", True)

    def __truediv__(self, o):
        return self._ew(o, "div")

    def __rtruediv__(self, o):
        return self._ew(o, "div", True)

    def __floordiv__(self, o):
        return self._ew(o, "floordiv")

    def __rfloordiv__(self, o):
        return self._ew(o, "floordiv", True)

    def __mod__(self, o):
        return self._ew(o, "mod")

    def _iop(self, o, op):
        v = elementwise(op, self, o)
        if self.ndim == 0:
            self._write(self._maps, (), v)
            return self
        if not same_shape(v.shape, self._shape):
            raise ValueError("non-broadcastable output operand")
        if _np.dtype(v.dtype).kind == "f" and self.dtype.kind in "iu":
            raise TypeError("Cannot cast ufunc output from float to int")
        self[...] = v
        return self

    def __iadd__(self, o):
        return self._iop(o, "add")

    def __isub__(self, o):
        return self._iop(o, "sub")

    def __imul__(self, o):
        return self._iop(o, "mul")

    def __itruediv__(self, o):
        return self._iop(o, "div")

    def _cmp(self, o, op):
        return BoolArray(self, o, op)

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, "eq")

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    __hash__ = object.__hash__


def _has_ellipsis(key):
    return key is Ellipsis or (isinstance(key, tuple) and any(k is Ellipsis for k in key))


def _contig_choice(kind="contig"):
    e = engine()
    c = e.objs.get(kind)
    if c is None:
        c = e.objs[kind] = bool(e.choose(2))
        e.names.setdefault("~" + kind, c)
    return c


def _same(a, b):
    r = a == b
    return r is True or (isinstance(r, SymBool) and engine().entails(r))


def same_shape(a, b):
    if len(a) != len(b):
        return False
    return all(bool(x == y) for x, y in zip(a, b))


def _norm_axis(a, n):
    a = int(a)
    if a < -n or a >= n:
        raise _np.exceptions.AxisError(a, n) if hasattr(_np, "exceptions") else ValueError(a)
    return a % n


def norm_slice(s, n):
    """Python slice.indices on a (possibly symbolic) length: (start, length, step)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, SymInt):
        step = step.__index__()
    step = int(step)
    if step == 0:
        raise ValueError("slice step cannot be zero")

    def bound(v, default, lo, hi):
        if v is None:
            return default
        if not _isint(v):
            if hasattr(v, "__index__"):
                v = v.__index__()
            else:
                raise TypeError(
                    "slice indices must be integers or None or have an __index__ method"
                )
        v = _canon_int(v)
        if v < 0:
            v = v + n
            if v < lo:
                return lo
            return v
        if v > hi:
            return hi
        return v

    if step > 0:
        start = bound(s.start, 0, 0, n)
        stop = bound(s.stop, n, 0, n)
        if stop <= start:
            return start, 0, step
        d = stop - start
    else:
        start = bound(s.start, n - 1, -1, n - 1)
        stop = bound(s.stop, -1, -1, n - 1)
        if start <= stop:
            return start, 0, step
        d = start - stop
    k = abs(step)
    if k == 1:
        return start, d, step
    return start, (d + k - 1) // k, step


def cast_elem(x, src, dst):
    """element conversion on assignment between dtypes"""
    if src is None or dst is None:
        return x
    src, dst = _np.dtype(src), _np.dtype(dst)
    if src == dst or _np.can_cast(src, dst, "safe"):
        return x
    f = z3.Function("cast_%s_to_%s" % (src, dst), z3.RealSort(), z3.RealSort())
    return SymReal(f(to_real(x).e))


def broadcast_value(value, shape, dtype):
    """callable vidx -> element for assigning `value` to a view of `shape`"""
    if isinstance(value, Lazy):
        value = value.array()
    if isinstance(value, ndarray):
        f = value._frozen()
        vs = list(value.shape)
        src = value.dtype
        n = len(shape)
        while len(vs) > n:
            if not (vs[0] == 1):
                raise ValueError(
                    "could not broadcast input array from shape %s into shape %s"
                    % (value.shape, tuple(shape))
                )
            vs = vs[1:]
        extra = value.ndim - len(vs)
        pad = n - len(vs)
        bc = []
        for i, v in enumerate(vs):
            t = shape[pad + i]
            if v == t:
                bc.append(False)
            elif v == 1:
                bc.append(True)
            else:
                raise ValueError(
                    "could not broadcast input array from shape %s into shape %s"
                    % (value.shape, tuple(shape))
                )

        def get(k):
            idx = (0,) * extra + tuple(
                0 if bc[i] else k[pad + i] for i in range(len(vs))
            )
            return cast_elem(f(idx), src, dtype)

        return get
    if isinstance(value, (list, tuple, _np.ndarray)):
        return broadcast_value(asarray(value), shape, dtype)
    if isinstance(value, (int, float, SymInt, SymReal, bool, _np.number, SymBool)):
        if isinstance(value, _np.number):
            value = value.item()
        return lambda k: value
    raise Unsupported("assigning %r to an array" % (type(value),))


class Lazy:
    """message whose content is read when needed (MPI buffer)"""

    def __init__(self, arr):
        self.arr = arr

    def array(self):
        return self.arr


# ---------------------------------------------------------------- construction

bool_ = _np.bool_
float64 = _np.float64
float32 = _np.float32
int64 = _np.int64
int32 = _np.int32
integer = _np.integer
floating = _np.floating
number = _np.number
generic = _np.generic
dtype = _np.dtype
newaxis = None
nan = _np.nan
pi = _np.pi
datetime64 = _np.datetime64
timedelta64 = _np.timedelta64
issubdtype = _np.issubdtype
can_cast = _np.can_cast
result_type = _np.result_type


def _shape(shape):
    if _isint(shape):
        return (_canon_int(shape),)
    out = []
    for s in shape:
        if not _isint(s):
            if hasattr(s, "__index__"):
                s = s.__index__()
            else:
                raise TypeError("'%s' object cannot be interpreted as an integer" % type(s).__name__)
        s = _canon_int(s)
        if s < 0:
            raise ValueError("negative dimensions are not allowed")
        out.append(s)
    return tuple(out)


def make(shape, dt, base, name="tmp", linear=False):
    buf = Buf(shape, _np.dtype(dt), base, name, linear=linear)
    e = engine()
    if e.loop is not None:
        e.loop.fresh.add(id(buf))
        e.loop.keep.append(buf)
    return ndarray(buf, [(0, i, 1) for i in range(len(shape))], shape)


def uf_array(name, shape, dt=float):
    """array of universally quantified content"""
    shape = tuple(shape)
    if shape:
        f = z3.Function(name, *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
        base = lambda idx: SymReal(f(*[int_z3(i) for i in idx]))
    else:
        c = z3.Real(name)
        base = lambda idx: SymReal(c)
    return make(shape, dt, base, name)


def empty(shape, dtype=float, order="C", **kw):
    if kw:
        raise TypeError("empty() got an unexpected keyword argument %r" % list(kw)[0])
    shape = _shape(shape)
    return uf_array(engine().fresh_name("uninit"), shape, _np.dtype(dtype))


def zeros(shape, dtype=float, order="C", **kw):
    if kw:
        raise TypeError("zeros() got an unexpected keyword argument %r" % list(kw)[0])
    return make(_shape(shape), dtype, lambda i: 0)


def ones(shape, dtype=float, order="C", **kw):
    if kw:
        raise TypeError("ones() got an unexpected keyword argument %r" % list(kw)[0])
    return make(_shape(shape), dtype, lambda i: 1)


def full(shape, fill_value, dtype=None, **kw):
    if kw:
        raise TypeError("full() got an unexpected keyword argument %r" % list(kw)[0])
    return make(_shape(shape), dtype or float, lambda i: fill_value)


def empty_like(a, dtype=None, **kw):
    return empty(a.shape, dtype or a.dtype)


def zeros_like(a, dtype=None, **kw):
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None, **kw):
    return ones(a.shape, dtype or a.dtype)


def full_like(a, v, dtype=None, **kw):
    return full(a.shape, v, dtype or a.dtype)


def arange(*args, dtype=None):
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1
    else:
        raise Unsupported("arange with step")
    if not (_isint(lo) and _isint(hi)):
        raise Unsupported("arange of non-integers")
    n = hi - lo
    if n < 0:
        n = 0
    if lo == 0:
        return make((n,), int, lambda i: i[0], linear=True)
    return make((n,), int, lambda i: lo + i[0])


def asarray(a, dtype=None, order=None):
    if isinstance(a, ndarray):
        if dtype is not None and _np.dtype(dtype) != a.dtype:
            return a.astype(dtype)
        return a
    if isinstance(a, (SymInt, SymReal, int, float)):
        v = a
        return make((), dtype or _dtype_of([a]), lambda i: v)
    if isinstance(a, _np.ndarray):
        if dtype is not None and _np.dtype(dtype) != a.dtype:
            a = a.astype(dtype)
        if a.dtype.kind not in "iuf":
            raise Unsupported("numpy array of type %s" % a.dtype)
        held = a.copy()
        return make(a.shape, a.dtype, lambda i: held[tuple(_index(k) for k in i)].item())
    if isinstance(a, (list, tuple)):
        shape = _nested_shape(a)
        if shape is not None:
            items = []
            _flatten(a, items)
            dt = _np.dtype(dtype) if dtype is not None else _dtype_of(items)
            if dt.kind in "iu" and dt.itemsize < 8 or dt.kind == "f" and dt.itemsize < 8:
                raise Unsupported("array of computed numbers in a narrow type (%s)" % dt)

            def get(i):
                n = 0
                for k, length in zip(i, shape):
                    n = n * length + _index(k)
                return items[n]

            return make(shape, dt, get)
    raise Unsupported("asarray(%s)" % type(a).__name__)


def _index(k):
    return k.__index__() if isinstance(k, SymInt) else int(k)


def _nested_shape(a):
    """lengths of equally long nested lists of numbers, or None"""
    if isinstance(a, (int, float, SymInt, SymReal, _np.number)):
        return ()
    if not isinstance(a, (list, tuple)):
        return None
    inner = [_nested_shape(x) for x in a]
    if not inner:
        return (0,)
    if inner[0] is None or any(x != inner[0] for x in inner):
        return None
    return (len(a),) + inner[0]


def _flatten(a, out):
    if isinstance(a, (list, tuple)):
        for x in a:
            _flatten(x, out)
    else:
        out.append(a.item() if isinstance(a, _np.number) else a)


def _dtype_of(items):
    if any(isinstance(x, (float, SymReal)) for x in items):
        return _np.dtype(float)
    return _np.dtype(int)


def array(a, dtype=None, copy=True, order=None, **kw):
    a = asarray(a, dtype)
    f = a._frozen()
    r = make(a.shape, a.dtype, f, linear=False)
    r._buf.linear = a._buf.linear and a._identity()
    return r


def copy(a, order="K"):
    return array(a)


def ascontiguousarray(a, dtype=None):
    a = asarray(a, dtype)
    if a.ndim == 0:
        return ndarray(a._buf, a._maps, (1,), a._writeable)  # documented: at least one dimension
    if a._c_contig():
        return a
    return array(a)


asfortranarray = None


def require(*a, **k):
    raise Unsupported("np.require")


def reshape(a, shape, order="C"):
    if _isint(shape):
        shape = (shape,)
    shape = _shape([s if not (isinstance(s, int) and s == -1) else -1 for s in shape]) if all(
        not (isinstance(s, int) and s == -1) for s in shape
    ) else tuple(shape)
    if any(isinstance(s, int) and s == -1 for s in shape):
        known = 1
        for s in shape:
            if not (isinstance(s, int) and s == -1):
                known = known * s
        if known == 0:
            raise ValueError("cannot reshape array")
        q, r = divmod(a.size, known)
        if not (r == 0):
            raise ValueError("cannot reshape array of size into shape")
        shape = tuple(q if isinstance(s, int) and s == -1 else s for s in shape)
    n = 1
    for s in shape:
        n = n * s
    if not (n == a.size):
        raise ValueError("cannot reshape array of size %s into shape %s" % (a.size, shape))
    if same_rank_shape(a.shape, shape):
        return ndarray(a._buf, a._maps, a._shape, a._writeable)
    f = a._frozen()
    old = a.shape

    def get(idx):
        flat = 0
        for i, s in zip(idx, shape):
            flat = flat * s + i
        out = []
        for s in reversed(old[1:]):
            flat, r = divmod(flat, s)
            out.append(r)
        if old:
            out.append(flat)
        return f(tuple(reversed(out)))

    r = make(shape, a.dtype, get)
    # the result of reshape aliases `a` in numpy when a is contiguous; writes through
    # it are not modelled
    r._buf.linear = a._buf.linear and a._identity()
    r._buf.reshaped = True
    return r


def same_rank_shape(a, b):
    return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))


def transpose(a, axes=None):
    return a.transpose(axes)


def swapaxes(a, i, j):
    return a.swapaxes(i, j)


def moveaxis(a, src, dst):
    if not isinstance(src, (tuple, list)):
        src, dst = (src,), (dst,)
    src = [_norm_axis(s, a.ndim) for s in src]
    dst = [_norm_axis(s, a.ndim) for s in dst]
    order = [n for n in range(a.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(order)


def _joined(arrays):
    arrays = [asarray(a) for a in arrays]
    if not arrays:
        raise ValueError("need at least one array")
    dt = arrays[0].dtype
    for a in arrays[1:]:
        dt = _np.promote_types(dt, a.dtype)
    readers = []
    for a in arrays:
        f, src = a._frozen(), a.dtype
        readers.append(lambda i, f=f, src=src: cast_elem(f(i), src, dt))
    return arrays, dt, readers


def stack(arrays, axis=0, out=None):
    if out is not None:
        raise Unsupported("np.stack(out=)")
    arrays, dt, readers = _joined(list(arrays))
    first = arrays[0]
    if not all(same_shape(a.shape, first.shape) for a in arrays[1:]):
        raise ValueError("all input arrays must have the same shape")
    axis = _norm_axis(axis, first.ndim + 1)
    shape = list(first.shape)
    shape.insert(axis, len(arrays))

    def get(i):
        i = list(i)
        k = i.pop(axis)
        i = tuple(i)
        if isinstance(k, int):
            return readers[k](i)
        for n in range(len(readers) - 1):
            if k == n:
                return readers[n](i)
        return readers[-1](i)

    return make(tuple(shape), dt, get)


def concatenate(arrays, axis=0, out=None):
    if out is not None or axis is None:
        raise Unsupported("np.concatenate options")
    arrays, dt, readers = _joined(list(arrays))
    first = arrays[0]
    if first.ndim == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = _norm_axis(axis, first.ndim)
    ends = []
    total = 0
    for a in arrays:
        if a.ndim != first.ndim or not all(
            bool(x == y) for n, (x, y) in enumerate(zip(a.shape, first.shape)) if n != axis
        ):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        ends.append((total, total + a.shape[axis]))
        total = total + a.shape[axis]
    shape = tuple(total if n == axis else x for n, x in enumerate(first.shape))

    def get(i):
        def part(n):
            j = list(i)
            j[axis] = j[axis] - ends[n][0]
            return readers[n](tuple(j))

        for n in range(len(readers) - 1):
            if i[axis] < ends[n][1]:
                return part(n)
        return part(len(readers) - 1)

    return make(shape, dt, get)


def flip(m, axis=None):
    if axis is None:
        if m.ndim == 0:
            return m._read(())
        axis = tuple(range(m.ndim))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    axis = [_norm_axis(x, m.ndim) for x in axis]
    key = tuple(slice(None, None, -1) if i in axis else slice(None) for i in range(m.ndim))
    maps, shape = _reverse(m, axis)
    return ndarray(m._buf, maps, shape, m._writeable)


def _reverse(m, axes):
    maps = []
    for off, va, st in m._maps:
        if va is not None and va in axes:
            maps.append((off + st * (m._shape[va] - 1), va, -st))
        else:
            maps.append((off, va, st))
    return maps, m._shape


def fliplr(m):
    if m.ndim < 2:
        raise ValueError("Input must be >= 2-d.")
    return flip(m, 1)


def flipud(m):
    if m.ndim < 1:
        raise ValueError("Input must be >= 1-d.")
    return flip(m, 0)


def rot90(m, k=1, axes=(0, 1)):
    axes = tuple(axes)
    if len(axes) != 2:
        raise ValueError("len(axes) must be 2.")
    if axes[0] == axes[1] or abs(axes[0] - axes[1]) == m.ndim:
        raise ValueError("Axes must be different.")
    for a in axes:
        if a >= m.ndim or a < -m.ndim:
            raise ValueError("Axes=%s out of range for array of ndim=%d." % (axes, m.ndim))
    if isinstance(k, SymInt):
        k = (k % 4).__index__()
    k %= 4
    if k == 0:
        return m[:] if m.ndim else m
    if k == 2:
        return flip(flip(m, axes[0]), axes[1])
    axes_list = list(range(m.ndim))
    axes_list[axes[0]], axes_list[axes[1]] = axes_list[axes[1]], axes_list[axes[0]]
    if k == 1:
        return transpose(flip(m, axes[1]), axes_list)
    return flip(transpose(m, axes_list), axes[1])


def _op(op, a, b):
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "div":
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            if isinstance(a, SymInt) or isinstance(b, SymInt):
                raise Unsupported("float division of symbolic integers")
            return a / b
        return a / b
    if op == "floordiv":
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            raise Unsupported("floor division of reals")
        return a // b
    if op == "mod":
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            raise Unsupported("modulo of reals")
        return a % b
    raise Unsupported(op)


def elementwise(op, a, b):
    arrs = []
    for x in (a, b):
        if isinstance(x, (list, tuple, _np.ndarray)):
            x = asarray(x)
        arrs.append(x)
    a, b = arrs
    dts = [x.dtype if isinstance(x, ndarray) else None for x in (a, b)]
    real_scalar = any(isinstance(x, (float, SymReal)) for x in (a, b))
    dt = None
    for d in dts:
        if d is not None:
            dt = d if dt is None else _np.promote_types(dt, d)
    if dt.kind in "iub" and (real_scalar or op == "div"):
        dt = _np.dtype(float)
    sa = a.shape if isinstance(a, ndarray) else ()
    sb = b.shape if isinstance(b, ndarray) else ()
    shape = []
    n = max(len(sa), len(sb))
    for i in range(n):
        x = sa[i - n + len(sa)] if i - n + len(sa) >= 0 else 1
        y = sb[i - n + len(sb)] if i - n + len(sb) >= 0 else 1
        if isinstance(x, int) and x == 1:
            shape.append(y)
        elif isinstance(y, int) and y == 1:
            shape.append(x)
        elif x == y:
            shape.append(x)
        elif x == 1:
            shape.append(y)
        elif y == 1:
            shape.append(x)
        else:
            raise ValueError("operands could not be broadcast together with shapes %s %s" % (sa, sb))
    fa = broadcast_value(a, shape, dt)
    fb = broadcast_value(b, shape, dt)
    if all(isinstance(s, int) for s in shape) and len(shape) == 1 and shape[0] <= 16:
        vals = [_op(op, fa((i,)), fb((i,))) for i in range(shape[0])]
        return asarray(vals, dt if not any(isinstance(v, SymReal) for v in vals) else None)
    if not shape:
        return _op(op, fa(()), fb(()))
    return make(shape, dt, lambda i: _op(op, fa(i), fb(i)))


def negative(a):
    return -a


def add(a, b):
    return a + b


def subtract(a, b):
    return a - b


def multiply(a, b):
    return a * b


class BoolArray:
    def __init__(self, a, o, op):
        self.a, self.o, self.op = a, o, op
        self.shape = a.shape
        self.ndim = a.ndim
        self.dtype = _np.dtype(bool)

    def elem(self, idx):
        x = self.a._read(idx)
        y = self.o._read(idx) if isinstance(self.o, ndarray) else self.o
        return {
            "eq": lambda: x == y,
            "ne": lambda: x != y,
            "lt": lambda: x < y,
            "le": lambda: x <= y,
            "gt": lambda: x > y,
            "ge": lambda: x >= y,
        }[self.op]()

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.elem(()))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def all(self):
        raise Unsupported("all() over a symbolic array")

    any = all

    def __getitem__(self, k):
        raise Unsupported("indexing a comparison result")


class Where:
    """np.where(arr == value) on a row-major enumeration viewed through an affine map"""

    def __init__(self, b):
        self.b = b
        a = b.a
        if b.op != "eq" or isinstance(b.o, ndarray):
            raise Unsupported("np.where on a general predicate")
        if not a._buf.linear or a._buf.writes:
            raise Unsupported("np.where on a general array")
        v = b.o
        if not _isint(v):
            raise Unsupported("np.where match against %r" % (v,))
        # the unique buffer index holding v
        shape = a._buf.shape
        total = 1
        for s in shape:
            total = total * s
        self.idx = None
        if v < 0 or v >= total:
            return
        flat, bidx = v, []
        for s in reversed(shape[1:]):
            flat, r = divmod(flat, s)
            bidx.append(r)
        bidx.append(flat)
        bidx = tuple(reversed(bidx))
        w = Write(a._maps, a._shape, None)
        self.idx = w.locate(bidx)

    def select(self, arr):
        return Selected(self, arr)

    def __getitem__(self, i):
        if self.idx is None:
            raise IndexError("index 0 is out of bounds for axis 0 with size 0")
        return _One(self.idx[i])

    def __len__(self):
        return self.b.a.ndim

    def __iter__(self):
        return iter(self[i] for i in range(self.b.a.ndim))


class _One:
    """array holding the (unique) match"""

    def __init__(self, v):
        self.v = v
        self.shape = (1,)

    def __getitem__(self, k):
        if isinstance(k, int) and k in (0, -1):
            return self.v
        raise Unsupported("indexing a where-result with %r" % (k,))

    def __len__(self):
        return 1

    def item(self):
        return self.v

    def __index__(self):
        return self.v


class Selected:
    def __init__(self, w, arr):
        self.w, self.arr = w, arr

    def __getitem__(self, k):
        if not (isinstance(k, int) and k in (0, -1)):
            raise Unsupported("indexing a where-selection with %r" % (k,))
        if self.w.idx is None:
            raise IndexError("index 0 is out of bounds for axis 0 with size 0")
        return self.arr[tuple(self.w.idx)]

    def item(self):
        return self[0]

    def __len__(self):
        return 0 if self.w.idx is None else 1


def where(c, *a):
    if a:
        raise Unsupported("three-argument np.where")
    if not isinstance(c, BoolArray):
        raise Unsupported("np.where(%s)" % type(c).__name__)
    return Where(c)


def nonzero(c):
    return where(c)


def argwhere(c):
    raise Unsupported("np.argwhere")


def copyto(dst, src, **kw):
    if kw:
        raise Unsupported("copyto options")
    dst[...] = src


def prod(a, *x, **k):
    r = 1
    for v in a:
        r = r * v
    return r


def product(a):
    return prod(a)


def _np_sum(a, *x, **k):
    if isinstance(a, (list, tuple)):
        r = 0
        for v in a:
            r = r + v
        return r
    raise Unsupported("np.sum")


def mod(a, b):
    return a % b


remainder = mod


def floor_divide(a, b):
    return a // b


def unravel_index(v, shape, order="C"):
    if order != "C":
        raise Unsupported("unravel_index order")
    total = prod(shape)
    if v < 0 or v >= total:
        raise ValueError("index is out of bounds for array with size")
    out = []
    for s in reversed(shape[1:]):
        v, r = divmod(v, s)
        out.append(r)
    out.append(v)
    return tuple(reversed(out))


def ravel_multi_index(idx, dims, mode="raise", order="C"):
    if order != "C" or mode != "raise":
        raise Unsupported("ravel_multi_index options")
    flat = 0
    for i, s in zip(idx, dims):
        if i < 0 or i >= s:
            raise ValueError("invalid entry in coordinates array")
        flat = flat * s + i
    return flat


def shape(a):
    return a.shape


def ndim(a):
    return getattr(a, "ndim", 0)


def isscalar(a):
    return isinstance(a, (int, float, SymInt, SymReal))


class _Testing:
    def __getattr__(self, k):
        raise Unsupported("np.testing")


def make_module():
    import types

    m = types.ModuleType("numpy")
    g = globals()
    skip = {"sym", "z3", "LAZY_ALL", "make_module"}
    for k, v in g.items():
        if not k.startswith("_") and k not in skip:
            setattr(m, k, v)
    m.bool = bool
    m.sum = _np_sum
    m.__version__ = _np.__version__
    m.asfortranarray = None

    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("asnumpy",):
            raise AttributeError(name)
        if not hasattr(_np, name):
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        raise Unsupported("numpy.%s is not modelled" % name)

    m.__getattr__ = __getattr__
    del m.asfortranarray
    return m
