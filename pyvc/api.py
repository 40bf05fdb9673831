"""The contract language: one text, two interpretations.

A contract is a Python function `contract(vc, **config)`.  It declares universally
quantified inputs (vc.int, vc.array, ...), states preconditions (vc.assume), runs the
real code and states postconditions (vc.prove).  `SymVC` interprets it symbolically -
all inputs at once, every obligation discharged by a solver; `ConcVC` interprets it on
concrete inputs with the unmodified code and the real numpy - used to replay the
verifier's counterexamples, to cross-check proved paths, and for the labelled bounded
stand-in.
"""
import importlib
import itertools
import random
from fractions import Fraction

import numpy as real_np

from . import sym, symnp
from .sym import PathEnd, SymBool, SymInt, SymReal, Unsupported, bool_z3


class PropertyFailure(Exception):
    pass


class Reject(Exception):
    pass


class SymVC:
    symbolic = True

    def __init__(self, path, stubs=None, fixed=None):
        self.e = path
        self._loader = None
        self.stubs = dict(stubs or {})
        self.fixed = fixed or {}
        self.np = None

    # -- modules
    @property
    def loader(self):
        if self._loader is None:
            from .loader import SymLoader

            self._loader = SymLoader(self.stubs)
            self.np = self._loader.np
        return self._loader

    def process(self):
        """another process: the same inputs and path, its own instance of the package"""
        other = SymVC(self.e, self.stubs, self.fixed)
        other.loader
        return other

    def mod(self, name):
        m = self.loader.load("fv3gfs.util" + ("." + name if name else ""))
        return m

    def stub(self, name, obj):
        if self._loader is not None and name in self._loader.stubs:
            raise Unsupported("stub after load")
        self.stubs[name] = obj
        if self._loader is not None:
            self._loader.stubs[name] = obj

    # -- inputs
    def int(self, name, lo=None, hi=None, small=None):
        v = self.e.new_atom(name)
        self.e.names[name] = v
        self._within(v, lo, hi)
        return v

    def _within(self, v, lo, hi):
        """lo <= v <= hi"""
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        c = lambda x: x if isinstance(x, int) else None
        self.e.bound_atom(v, c(lo), c(hi))

    def choice(self, name, options):
        k = self.e.choose(len(options))
        self.e.names["#" + name] = k
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def real(self, name, values=None, nonzero=False):
        import z3

        v = SymReal(z3.Real(name))
        self.e.names[name] = v
        if nonzero:
            self.assume(v != 0)
        return v

    def array(self, name, shape, dtype=float):
        a = symnp.uf_array(name, shape, real_np.dtype(dtype))
        return a

    def assume(self, c):
        if isinstance(c, (SymBool,)):
            self.e.assume_raw(c.e)
            if c.key is not None:
                self.e.known[c.key] = True
                self.e.known[c.negation_key()] = False
            if len(self.e.trace) < len(self.e.prefix):
                return
            import z3

            if self.e._check() == z3.unsat:
                raise PathEnd()
        elif not c:
            raise PathEnd()

    def indices(self, shape, name="p"):
        """one generic index tuple of the given shape (nothing if it is empty)"""
        idx = []
        for d, n in enumerate(shape):
            if not isinstance(n, SymInt) and n <= 0:
                return
            k = self.e.fresh_int(name + str(d))
            self._within(k, 0, n - 1)
            idx.append(k)
        yield tuple(idx)

    def ints(self, lo, hi, name="k"):
        """one generic integer lo <= k < hi"""
        k = self.e.fresh_int(name)
        self._within(k, lo, hi - 1)
        yield k

    # -- reading array elements
    def at(self, arr, idx):
        if isinstance(arr, (SymReal, SymInt, int, float)):
            return arr
        return arr._read(tuple(idx))

    def prove(self, c, label):
        if isinstance(c, SymBool):
            self.e.prove(c, label)
        else:
            self.e.prove(bool(c), label)

    def prove_eq(self, a, b, label):
        self.prove(self.eq(a, b), label)

    def eq(self, a, b):
        if isinstance(a, (SymReal, SymInt, int, float)) and isinstance(
            b, (SymReal, SymInt, int, float)
        ):
            if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
                return sym.to_real(a) == sym.to_real(b)
            return a == b
        return a == b

    def prove_shape(self, a, b, label):
        a, b = tuple(a), tuple(b)
        self.prove(len(a) == len(b), label + " (rank)")
        for x, y in zip(a, b):
            self.prove(x == y, label)

    def fail(self, label):
        self.e.prove(False, label)

    def all(self, conds):
        import z3

        return SymBool(z3.And(*[bool_z3(c) for c in conds]))

    def any(self, conds):
        import z3

        return SymBool(z3.Or(*[bool_z3(c) for c in conds]))

    def implies(self, a, b):
        import z3

        return SymBool(z3.Implies(bool_z3(a), bool_z3(b)))

    def concrete(self, x):
        """a Python int for x (case split over its possible values)"""
        return x.__index__() if isinstance(x, SymInt) else int(x)

    def is_int(self, x):
        return isinstance(x, (int, SymInt)) and not isinstance(x, bool)

    def loop_mode(self, *mode):
        self.e.objs["loop_mode"] = mode

    def expect_raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.prove(True, label)
            return True
        self.fail(label)
        return False

    def raises(self, exc, fn):
        try:
            fn()
        except exc:
            return True
        return False

    def rng_choice(self, name, n):
        return self.e.choose(n)

    def to_real(self, x):
        return sym.to_real(x)

    def unsupported(self, text):
        raise Unsupported(text)

    def note(self, text):
        pass


class ConcVC:
    """concrete interpretation on the real, unmodified code"""

    symbolic = False

    def __init__(self, values=None, rng=None, span=6, stretch=None):
        self.values = values
        self.rng = rng or random.Random(0)
        self.span = span
        # the number of the one integer without an upper limit that is chosen from many
        self.stretch = stretch
        self.log = {}
        self.np = real_np
        self.nproved = 0
        self.proved_labels = set()
        self._stubs = []
        self._salt = self.rng.randrange(1, 1000)

    def process(self):
        return self

    def mod(self, name):
        return importlib.import_module("fv3gfs.util" + ("." + name if name else ""))

    def stub(self, name, obj):
        """the package (imported afresh for every run) sees `obj` as module `name`"""
        import sys

        self._stubs.append((name, sys.modules.get(name)))
        sys.modules[name] = obj

    def unstub(self):
        import sys

        for name, old in reversed(self._stubs):
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old

    def int(self, name, lo=None, hi=None, small=None):
        if self.values is not None and name in self.values:
            v = int(self.values[name])
        else:
            if self.values is not None:
                lo2 = lo if lo is not None else 0
                v = int(lo2)
            else:
                a = lo if lo is not None else -self.span
                span = self.span if self.span < 1000 else 1 << self.rng.randrange(self.span.bit_length())
                if self.stretch is not None and hi is None:
                    if self.stretch == 0:
                        a, span, small = max(a, 20), 150, None
                    self.stretch -= 1
                b = a + (span if small is None else small)
                if hi is not None:
                    b = min(b, hi)
                    if lo is None:
                        a = min(a, hi)
                if hi is not None and b < a:
                    raise Reject()
                v = self.rng.randint(int(a), int(b))
        self.log[name] = v
        if lo is not None and v < lo:
            raise Reject()
        if hi is not None and v > hi:
            raise Reject()
        return v

    def choice(self, name, options):
        key = "#" + name
        if self.values is not None and key in self.values:
            k = int(self.values[key])
        elif self.values is not None:
            k = 0
        else:
            k = self.rng.randrange(len(options))
        self.log[key] = k
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def real(self, name, values=None, nonzero=False):
        if self.values is not None and name in self.values:
            n, d = self.values[name]
            v = float(Fraction(n, d))
        else:
            v = float(self.rng.choice(values or [-2.0, -0.5, 0.25, 1.0, 3.0, 7.5, 1800.0]))
        self.log[name] = list(float(v).as_integer_ratio())
        if nonzero and v == 0:
            raise Reject()
        return v

    def array(self, name, shape, dtype=float):
        """every element has its own value (so that moving any element shows)"""
        n = 1
        for s in shape:
            n *= int(s)
        if n > 4000000:
            raise Reject()
        self._salt += 1
        dtype = real_np.dtype(dtype)
        base = (self._salt % 1000) * 0.001 + 1.0
        if dtype.kind in "iu":
            a = real_np.arange(n) + 1
        else:
            a = real_np.arange(n) + base
        a = a.astype(dtype)
        if dtype.itemsize >= 8 or n < 10000:
            order = self.rng.sample(range(n), n) if n <= 5000 else None
            if order is not None:
                a = a[order]
        return a.reshape([int(s) for s in shape])

    def assume(self, c):
        if not c:
            raise Reject()

    def indices(self, shape, name="p"):
        return real_np.ndindex(*[max(0, int(s)) for s in shape])

    def ints(self, lo, hi, name="k"):
        return range(int(lo), int(hi))

    def at(self, arr, idx):
        return arr[tuple(idx)] if getattr(arr, "ndim", 0) or len(idx) else arr

    def prove(self, c, label):
        self.nproved += 1
        self.proved_labels.add(label)
        if not bool(c):
            raise PropertyFailure(label)

    def eq(self, a, b):
        a, b = _plain(a), _plain(b)
        if isinstance(a, (float, complex, real_np.inexact)) or isinstance(b, (float, complex, real_np.inexact)):
            if a == b or (a != a and b != b):
                return True  # uninitialised memory may hold any pattern of bits
            try:
                return abs(a - b) <= 1e-9 * max(abs(a), abs(b))
            except TypeError:
                return False
        return a == b

    def prove_eq(self, a, b, label):
        if not self.eq(a, b):
            raise PropertyFailure("%s: got %r, expected %r" % (label, a, b))
        self.nproved += 1
        self.proved_labels.add(label)

    def prove_shape(self, a, b, label):
        self.prove(len(tuple(a)) == len(tuple(b)), label + " (rank)")
        self.prove(tuple(int(x) for x in a) == tuple(int(x) for x in b), label)

    def fail(self, label):
        raise PropertyFailure(label)

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def implies(self, a, b):
        return (not a) or bool(b)

    def concrete(self, x):
        return int(x)

    def is_int(self, x):
        return isinstance(x, (int, real_np.integer)) and not isinstance(x, bool)

    def loop_mode(self, *mode):
        pass

    def expect_raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.prove(True, label)
            return True
        self.fail(label)

    def raises(self, exc, fn):
        try:
            fn()
        except exc:
            return True
        return False

    def rng_choice(self, name, n):
        return self.rng.randrange(n)

    def to_real(self, x):
        return float(x)

    def unsupported(self, text):
        raise Reject(text)

    def note(self, text):
        pass


def _plain(x):
    if isinstance(x, real_np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, real_np.generic):
        x = x.item()
    return x
