"""Symbolic values and the path-exploring engine.

The real Python code is executed by CPython; integers, truth values and array
elements that are universally quantified in a contract are proxy objects.

* SymInt   - a polynomial over integer atoms, kept in normal form; mathematical
             integers (Python ints are unbounded, so this is exact for them;
             numpy int64 values are treated as mathematical - see DESIGN.md).
* SymBool  - a z3 Boolean; `bool()` of it asks the engine, which forks the path.
* SymReal  - a z3 real: an array element (uninterpreted value) or a real number.

A path is explored by re-executing the harness with a recorded decision prefix.
"""
import itertools
import math
import numbers
import time

import z3

z3.set_param("memory_max_size", 6000)


class Unsupported(BaseException):
    """The code did something the verifier cannot express: the unit is undecided."""


class Diverged(Unsupported):
    """re-execution took another course (e.g. address-dependent hashing)"""


class PathEnd(BaseException):
    """The current path is not feasible / was pruned by an assumption."""


class CoveredElsewhere(PathEnd):
    """the rest of the path is the subject of another generic iteration"""


class ObligationFailed(BaseException):
    def __init__(self, label, status, model=None, detail=""):
        super().__init__(label)
        self.label, self.status, self.model, self.detail = label, status, model, detail


ENGINE = None


def engine():
    if ENGINE is None:
        raise Unsupported("symbolic value used outside of the engine")
    return ENGINE


# --------------------------------------------------------------------------- ints


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    return tuple(sorted(m1 + m2))


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _mdiv(m, d):
    """monomial m / d, or None"""
    rest = list(m)
    for a in d:
        if a in rest:
            rest.remove(a)
        else:
            return None
    return tuple(rest)


def _is_int(x):
    return isinstance(x, (int, numbers.Integral)) and not isinstance(x, SymInt)


def as_poly(x):
    if isinstance(x, SymInt):
        return x.p
    if isinstance(x, SymBool):
        return {(): 1} if bool(x) else {}
    if _is_int(x):
        x = int(x)
        return {(): x} if x else {}
    return None


def mk(p):
    """polynomial -> int if constant, else SymInt"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return SymInt(p)


class SymInt:
    __slots__ = ("p", "_z")
    __array_ufunc__ = None  # numpy must defer to us
    dtype = None

    def __init__(self, p):
        self.p = p
        self._z = None

    # -- z3
    def z(self):
        if self._z is None:
            self._z = poly_z3(self.p)
        return self._z

    # -- arithmetic
    def _bin(self, o, f):
        q = as_poly(o)
        if q is None:
            if isinstance(o, (float, SymReal)):
                return NotImplemented if isinstance(o, SymReal) else f_real(self, o, f)
            return NotImplemented
        return f(self.p, q)

    def __add__(self, o):
        q = as_poly(o)
        if q is None:
            return _real_op(self, o, "add")
        return mk(_padd(self.p, q))

    __radd__ = __add__

    def __sub__(self, o):
        q = as_poly(o)
        if q is None:
            return _real_op(self, o, "sub")
        return mk(_padd(self.p, q, -1))

    def __rsub__(self, o):
        q = as_poly(o)
        if q is None:
            return _real_op(o, self, "sub")
        return mk(_padd(q, self.p, -1))

    def __mul__(self, o):
        q = as_poly(o)
        if q is None:
            if isinstance(o, (list, tuple, str)):
                return self.__index__() * o
            return _real_op(self, o, "mul")
        return mk(_pmul(self.p, q))

    __rmul__ = __mul__

    def __neg__(self):
        return mk({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, k):
        if not _is_int(k) or k < 0 or k > 6:
            raise Unsupported("symbolic power")
        r = 1
        for _ in range(k):
            r = r * self
        return r

    def __floordiv__(self, o):
        return int_divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return int_divmod(o, self)[0]

    def __mod__(self, o):
        return int_divmod(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return "<formatted>"
        return int_divmod(o, self)[1]

    def __divmod__(self, o):
        return int_divmod(self, o)

    def __rdivmod__(self, o):
        return int_divmod(o, self)

    def __truediv__(self, o):
        return int_truediv(self, o)

    def __rtruediv__(self, o):
        return int_truediv(o, self)

    # -- comparison
    def _cmp(self, o, op):
        q = as_poly(o)
        if q is None:
            if isinstance(o, float):
                if o == math.floor(o) and abs(o) < 2 ** 53:
                    q = as_poly(int(o))
                else:
                    raise Unsupported("comparison of a symbolic int with a float")
            elif isinstance(o, SymReal):
                return NotImplemented
            elif op in ("eq", "ne"):
                return NotImplemented
            else:
                return NotImplemented
        d = _padd(self.p, q, -1)
        if not d or (len(d) == 1 and () in d):
            c = d.get((), 0)
            return {
                "eq": c == 0,
                "ne": c != 0,
                "lt": c < 0,
                "le": c <= 0,
                "gt": c > 0,
                "ge": c >= 0,
            }[op]
        return SymBool.cmp(d, op)

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __hash__(self):
        # constant: equal symbolic values must hash equal; dict lookups then fork on ==
        return 7919

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return engine().concretise(self)

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float() of a symbolic integer")

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    __trunc__ = __floor__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<" + poly_str(self.p) + ">"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def astype(self, t):
        return self

    def is_integer(self):
        return True


def f_real(a, o, f):
    raise Unsupported("mixing symbolic ints and floats")


def _real_op(a, b, op):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        ra, rb = to_real(a), to_real(b)
        if ra is None or rb is None:
            return NotImplemented
        return SymReal._arith(ra, rb, op)
    if isinstance(a, float) or isinstance(b, float):
        f = a if isinstance(a, float) else b
        other = b if isinstance(a, float) else a
        if f == math.floor(f) and abs(f) < 2 ** 53 and op in ("add", "sub", "mul"):
            # int (op) integral float: still the exact same integer as long as it
            # stays below 2**53, which the engine cannot know -> keep it undecided
            raise Unsupported("symbolic integer flows into floating point")
        raise Unsupported("symbolic integer flows into floating point")
    return NotImplemented


def int_truediv(a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        return _real_op(a, b, "div")
    raise Unsupported("true division of symbolic integers (floating point)")


def poly_z3(p):
    e = engine()
    terms = []
    for m in sorted(p):
        c = p[m]
        if not m:
            terms.append(z3.IntVal(c))
            continue
        t = None
        for a in m:
            za = e.atoms[a]
            t = za if t is None else t * za
        terms.append(t if c == 1 else z3.IntVal(c) * t)
    if not terms:
        return z3.IntVal(0)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def poly_str(p):
    e = ENGINE
    out = []
    for m in sorted(p):
        c = p[m]
        names = [str(e.atoms[a]) if e else str(a) for a in m]
        out.append("*".join(([str(c)] if c != 1 or not m else []) + names))
    return " + ".join(out) or "0"


def int_z3(x):
    if isinstance(x, SymInt):
        return x.z()
    return z3.IntVal(int(x))


def _divide(a, b):
    """polynomial quotient/remainder of a by b (dicts): list of candidate (q, r)"""
    if len(b) == 1 and () in b:
        c = b[()]
        q = {m: k // c for m, k in a.items() if k // c}
        r = {m: k % c for m, k in a.items() if k % c}
        out = [(q, r)]
        # balanced variant: negative coefficients kept whole
        q2 = {m: int(k / c) for m, k in a.items() if int(k / c)}
        r2 = {m: k - int(k / c) * c for m, k in a.items() if k - int(k / c) * c}
        if q2 != q:
            out.append((q2, r2))
        return out
    out = []
    leads = sorted((m for m in b if m), key=lambda m: (-len(m), m))
    for lead in leads[:3]:
        if abs(b[lead]) != 1 and len(b) > 1:
            continue
        q, r, work = {}, {}, dict(a)
        for _ in range(40):
            if not work:
                break
            hit = None
            for m in sorted(work, key=lambda m: (-len(m), m)):
                d = _mdiv(m, lead)
                if d is not None:
                    hit = (m, d)
                    break
            if hit is None:
                break
            m, d = hit
            k = work[m] // b[lead] if work[m] % b[lead] == 0 else None
            if k is None:
                k = work[m] // b[lead]
                if k == 0:
                    r[m] = work.pop(m)
                    continue
            t = {d: k}
            q = _padd(q, t)
            work = _padd(work, _pmul(t, b), -1)
        r = _padd(r, work)
        if (q, r) not in out:
            out.append((q, r))
    return out


def int_divmod(a, b):
    """Python floor division and modulo on (possibly symbolic) integers."""
    pa, pb = as_poly(a), as_poly(b)
    if pa is None or pb is None:
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported("symbolic integer flows into floating point")
        raise Unsupported("floor division of %r by %r" % (type(a), type(b)))
    a, b = mk(pa), mk(pb)
    if not isinstance(a, SymInt) and not isinstance(b, SymInt):
        return divmod(a, b)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if not (b > 0):
        q, r = int_divmod(-a, -b)  # floor(a/b) = floor(-a/-b); a = b*q + r
        return q, -r
    e = engine()
    key = (tuple(sorted(pa.items())), tuple(sorted(pb.items())))
    hit = e.divcache.get(key)
    if hit is not None:
        return hit
    # Euclid: if a = b*q + r and 0 <= r < b then q, r are THE quotient and remainder
    for q, r in _divide(pa, pb):
        q, r = mk(q), mk(r)
        if e.entails_all([lambda: r >= 0, lambda: r < b]):
            e.divcache[key] = (q, r)
            return q, r
    cands = _divide(pa, pb) or [({}, pa)]
    q0, r0 = mk(cands[0][0]), mk(cands[0][1])
    # model-guided case split on nearby quotients
    if e.bounded_shift(a, b, q0):
        for _ in range(12):
            d = e.oracle(lambda: e.model_quotient_shift(a, b, q0))
            if d is None:
                break
            q, r = q0 + d, r0 - d * b
            inside = SymBool(z3.And(bool_z3(r >= 0), bool_z3(r < b)))
            if inside:  # forks unless entailed
                e.divcache[key] = (q, r)
                return q, r
    q, r = e.fresh_int("q"), e.fresh_int("r")
    e.assume_raw(int_z3(a) == int_z3(b) * int_z3(q) + int_z3(r))
    e.assume_raw(int_z3(r) >= 0)
    e.assume_raw(int_z3(r) < int_z3(b))
    e.divcache[key] = (q, r)
    return q, r


# --------------------------------------------------------------------------- bools


class SymBool:
    """a z3 Boolean; comparisons of integer polynomials also carry a canonical key:
    ("le", p) for p <= 0, ("eq", p), ("ne", p), with p divided by its content"""

    __slots__ = ("_e", "key")
    __array_ufunc__ = None

    def __init__(self, e, key=None):
        self._e = e
        self.key = key

    @property
    def e(self):
        if self._e is None:
            op, items = self.key
            z = poly_z3(dict(items))
            zero = z3.IntVal(0)
            self._e = z <= zero if op == "le" else z == zero if op == "eq" else z != zero
        return self._e

    @staticmethod
    def cmp(d, op):
        eng = engine()
        if op in ("eq", "ne"):
            lead = min(m for m in d if m)
            if d[lead] < 0:
                d = {m: -c for m, c in d.items()}
            g = 0
            for m, c in d.items():
                if m:
                    g = math.gcd(g, c)
            if g > 1:
                if d.get((), 0) % g:
                    return op == "ne"
                d = {m: c // g for m, c in d.items()}
            lo, hi = eng.bounds(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return op == "ne"
        else:
            if op in ("gt", "ge"):
                d = {m: -c for m, c in d.items()}
            if op in ("lt", "gt"):  # integers: d < 0 is d + 1 <= 0
                d = _padd(d, {(): 1})
            g = 0
            for m, c in d.items():
                if m:
                    g = math.gcd(g, c)
            if g > 1:
                c0 = -((-d.get((), 0)) // g)  # ceiling
                d = {m: c // g for m, c in d.items() if m}
                if c0:
                    d[()] = c0
            lo, hi = eng.bounds(d)
            if lo is not None and lo > 0:
                return False
            if hi is not None and hi <= 0:
                return True
            op = "le"
        key = (op, tuple(sorted(d.items())))
        known = eng.known.get(key)
        if known is not None:
            return known
        return SymBool(None, key)

    def negation_key(self):
        op, items = self.key
        if op == "eq":
            return ("ne", items)
        if op == "ne":
            return ("eq", items)
        d = _padd({m: -c for m, c in items}, {(): 1})
        return ("le", tuple(sorted(d.items())))

    def __bool__(self):
        e = engine()
        if self.key is None:
            return e.decide(self.e)
        v = e.known.get(self.key)
        if v is None:
            v = e.decide(self.e)
            e.known[self.key] = v
            e.known[self.negation_key()] = not v
        return v

    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.e, o.e))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.e, o.e))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e), self.negation_key() if self.key else None)

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bool(self) == bool(o)
        if _is_int(o):
            return int(bool(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __neg__(self):
        return -int(bool(self))

    def __repr__(self):
        return "<bool %s>" % (self.e,)


def bool_z3(b):
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, z3.BoolRef):
        return b
    return z3.BoolVal(bool(b))


# --------------------------------------------------------------------------- reals


def to_real(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.z()))
    if isinstance(x, bool):
        return SymReal(z3.RealVal(int(x)))
    if isinstance(x, (int, numbers.Integral)):
        return SymReal(z3.RealVal(int(x)))
    if isinstance(x, (float, numbers.Real)):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf element")
        num, den = float(x).as_integer_ratio()
        return SymReal(z3.Q(num, den) if den != 1 else z3.RealVal(num))
    return None


class SymReal:
    __slots__ = ("e",)
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _arith(a, b, op):
        x, y = a.e, b.e
        if op == "add":
            return SymReal(x + y)
        if op == "sub":
            return SymReal(x - y)
        if op == "mul":
            return SymReal(x * y)
        if op == "div":
            # numpy division by zero gives inf/nan, not an exception: out of scope
            if engine().decide(y == 0):
                raise Unsupported("division by zero in floating point")
            return SymReal(x / y)
        raise Unsupported(op)

    def _b(self, o, op, rev=False):
        r = to_real(o)
        if r is None:
            return NotImplemented
        return SymReal._arith(r, self, op) if rev else SymReal._arith(self, r, op)

    def __add__(self, o):
        return self._b(o, "add")

    def __radd__(self, o):
        return self._b(o, "add", True)

    def __sub__(self, o):
        return self._b(o, "sub")

    def __rsub__(self, o):
        return self._b(o, "sub", True)

    def __mul__(self, o):
        return self._b(o, "mul")

    def __rmul__(self, o):
        return self._b(o, "mul", True)

    def __truediv__(self, o):
        return self._b(o, "div")

    def __rtruediv__(self, o):
        return self._b(o, "div", True)

    def __neg__(self):
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _c(self, o, f):
        r = to_real(o)
        if r is None:
            return NotImplemented
        return SymBool(f(self.e, r.e))

    def __eq__(self, o):
        r = to_real(o)
        if r is None:
            return NotImplemented
        if self.e.eq(r.e):
            return True
        return SymBool(self.e == r.e)

    def __ne__(self, o):
        r = to_real(o)
        if r is None:
            return NotImplemented
        if self.e.eq(r.e):
            return False
        return SymBool(self.e != r.e)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __hash__(self):
        return 7907

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return "<%s>" % (self.e,)

    def __format__(self, spec):
        return repr(self)


# --------------------------------------------------------------------------- engine


class Stats:
    def __init__(self):
        self.checks = 0
        self.solver_s = 0.0
        self.paths = 0
        self.pruned = 0
        self.obligations = 0
        self.by = {}
        self.forks = 0
        self.unknown_feas = 0


class Path:
    """one (re-)execution of the harness"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.stats = ex.stats
        self.prefix = prefix
        self.trace = []
        self.atoms = []
        self.names = {}  # contract input name -> SymInt / value
        self.counter = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.feas_timeout_ms)
        self.pc = []
        self.divcache = {}
        self.known = {}  # canonical comparison -> decided value
        self.range = {}  # atom -> (lower, upper) constant bounds assumed for it
        self.abstracted = []  # sources of imprecision on this path
        self.loop = None  # generic-loop context
        self.loop_witness = {}
        self.objs = {}
        self.nprove = 0

    # -- atoms
    def new_atom(self, name):
        self.atoms.append(z3.Int(name))
        return SymInt({(len(self.atoms) - 1,): 1})

    def fresh_int(self, hint="k"):
        self.counter += 1
        return self.new_atom("%s!%d" % (hint, self.counter))

    def fresh_name(self, hint):
        self.counter += 1
        return "%s!%d" % (hint, self.counter)

    def bound_atom(self, v, lo=None, hi=None):
        """record constant bounds of an atom (they are also assumed as constraints)"""
        (m,) = v.p
        a, b = self.range.get(m[0], (None, None))
        if lo is not None:
            a = lo if a is None else max(a, lo)
        if hi is not None:
            b = hi if b is None else min(b, hi)
        self.range[m[0]] = (a, b)

    def bounds(self, d):
        """constant (lower, upper) bounds of a polynomial by interval arithmetic over
        non-negative atoms; None where nothing is known"""
        lo, hi = d.get((), 0), d.get((), 0)
        for m, c in d.items():
            if not m:
                continue
            a, b = 1, 1
            if len(m) == 1:
                a, b = self.range.get(m[0], (None, None))
            else:
                for x in m:
                    l, u = self.range.get(x, (None, None))
                    if l is None or l < 0:
                        return None, None
                    a = a * l
                    b = None if (b is None or u is None) else b * u
            if c < 0:
                a, b = b, a
            lo = None if (lo is None or a is None) else lo + c * a
            hi = None if (hi is None or b is None) else hi + c * b
            if lo is None and hi is None:
                return None, None
        return lo, hi

    # -- constraints
    def assume_raw(self, b):
        self.pc.append(b)
        self.solver.add(b)

    def _check(self, *extra):
        self.stats.checks += 1
        t = time.time()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        return r

    def decide(self, b):
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            v, h = self.prefix[i]
            if v == "o" or h != b.hash():
                raise Diverged("re-execution diverged")
            self.trace.append((v, h))
            self.assume_raw(b if v else z3.Not(b))
            return v
        if i > self.ex.max_decisions:
            raise Unsupported("too many decisions on one path")
        t = self._check(b)
        if t == z3.unsat:
            v = False
        else:
            f = self._check(z3.Not(b))
            v = True
            if f == z3.unsat:
                if t != z3.sat:
                    self.stats.unknown_feas += 1
            else:
                if t != z3.sat or f != z3.sat:
                    self.stats.unknown_feas += 1
                self.stats.forks += 1
                self.ex.push(self.trace + [(False, b.hash())])
        self.trace.append((v, b.hash()))
        self.assume_raw(b if v else z3.Not(b))
        return v

    def choose(self, n):
        """nondeterministic concrete choice 0..n-1 (demonic)"""
        for k in range(n - 1):
            i = len(self.trace)
            if i < len(self.prefix):
                v, f = self.prefix[i]
                if f != ("choose", n, k):
                    raise Diverged("re-execution diverged")
                self.trace.append((v, f))
            else:
                self.ex.push(self.trace + [(False, ("choose", n, k))])
                v = True
                self.trace.append((v, ("choose", n, k)))
            if v:
                return k
        return n - 1

    def oracle(self, fn):
        """solver-derived value: recorded, so that re-execution is deterministic"""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            if v[0] != "o":
                raise Diverged("re-execution diverged")
            return v[1]
        v = fn()
        self.trace.append(("o", v))
        return v

    def entails(self, b):
        if isinstance(b, bool):
            return b
        return self.oracle(lambda: self._check(z3.Not(bool_z3(b))) == z3.unsat)

    def entails_all(self, thunks):
        for t in thunks:
            if not self.entails(t()):
                return False
        return True

    def model_quotient_shift(self, a, b, q0):
        if self._check_keep() != z3.sat:
            return None
        m = self.last_model
        ev = lambda x: m.eval(int_z3(x), model_completion=True).as_long()
        try:
            bv = ev(b)
            return ev(a) // bv - ev(q0)
        except Exception:
            return None

    def bounded_shift(self, a, b, q0):
        """is floor(a/b) - q0 within a small constant range?"""
        lo = a - (q0 - 4) * b
        hi = a - (q0 + 5) * b
        return self.entails_all([lambda: lo >= 0, lambda: hi < 0])

    def _check_keep(self):
        self.stats.checks += 1
        t = time.time()
        r = self.solver.check()
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.last_model = self.solver.model()
        return r

    def concretise(self, x):
        """a Python int for x: unique value, or case split over a small range"""
        for _ in range(70):
            v = self.oracle(lambda: self._value(x))
            if v is None:
                raise Unsupported("cannot concretise %r" % (x,))
            if self.entails(x == v):
                return v
            # only split when the range is small
            if not self.entails_all([lambda: x >= v - 64, lambda: x <= v + 64]):
                raise Unsupported("symbolic integer %r needed as a machine int" % (x,))
            if x == v:
                return v
        raise Unsupported("cannot concretise %r" % (x,))

    def _value(self, x):
        if self._check_keep() != z3.sat:
            return None
        return self.last_model.eval(x.z(), model_completion=True).as_long()

    # -- obligations
    def prove(self, cond, label):
        if len(self.trace) < len(self.prefix):
            return  # same prefix already proved this when it was first explored
        self.stats.obligations += 1
        self.nprove += 1
        self.ex.note_label(label)
        if isinstance(cond, SymBool):
            b = cond.e
        elif isinstance(cond, z3.BoolRef):
            b = cond
        else:
            if cond:
                self._by("evaluation")
                return
            # concretely false: is the path really feasible?
            st, model = self.full_check([])
            if st == "unsat":
                self._by("z3")
                raise PathEnd()
            raise ObligationFailed(label, st, model, "false on this path")
        st, model = self.full_check([z3.Not(b)])
        if st == "unsat":
            self._by(self.last_backend)
            self.assume_raw(b)
            return
        raise ObligationFailed(label, st, model, str(b)[:400])

    def _by(self, k):
        self.stats.by[k] = self.stats.by.get(k, 0) + 1

    def full_check(self, extra):
        """('sat'|'unsat'|'unknown', model dict)"""
        self.stats.checks += 1
        t0 = time.time()
        try:
            s = self.solver
            s.push()
            s.add(*extra)
            s.set("timeout", self.ex.prove_timeout_ms)
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            s.set("timeout", self.ex.feas_timeout_ms)
            self.last_backend = "z3"
            if r == z3.unknown:
                s2 = z3.SolverFor("QF_NIA") if False else z3.Solver()
                s2.set("timeout", self.ex.prove_timeout_ms)
                s2.set("random_seed", 7)
                s2.add(*self.pc)
                s2.add(*extra)
                r = s2.check()
                m = s2.model() if r == z3.sat else None
            if r == z3.unknown:
                r = self._cvc5(list(self.pc) + list(extra))
                if r == "unsat":
                    self.last_backend = "cvc5"
                    return "unsat", None
                return "unknown", None
            if r == z3.unsat:
                if self.ex.cross_cvc5:
                    c = self._cvc5(list(self.pc) + list(extra))
                    self._by2("cvc5-agrees" if c == "unsat" else "cvc5-" + c)
                    if c == "sat":
                        raise Unsupported("z3 and cvc5 disagree")
                return "unsat", None
            return "sat", self.minimise(extra, m)
        finally:
            self.stats.solver_s += time.time() - t0

    def _by2(self, k):
        self.ex.cross[k] = self.ex.cross.get(k, 0) + 1

    def minimise(self, extra, m):
        """try to find a small model, so that it can be replayed"""
        ints = [v for v in self.names.values() if isinstance(v, SymInt)]
        for bound in (3, 6, 12, 30, 100, 400):
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*self.pc)
            s.add(*extra)
            for v in ints:
                s.add(v.z() <= bound, v.z() >= -bound)
            if s.check() == z3.sat:
                m = s.model()
                break
        out = {}
        for k, v in self.names.items():
            out[k] = self.value_in(m, v)
        return out

    def value_in(self, m, v):
        if isinstance(v, SymInt):
            return m.eval(v.z(), model_completion=True).as_long()
        if isinstance(v, SymReal):
            r = m.eval(v.e, model_completion=True)
            try:
                f = r.as_fraction()
                return [f.numerator, f.denominator]
            except Exception:
                return [0, 1]
        return v

    def path_model(self):
        """a small model of the path condition (contract inputs only), or None"""
        st, m = self.full_check([])
        return m if st == "sat" else None

    def _cvc5(self, fmls):
        try:
            import cvc5
        except Exception:
            return "unknown"
        s = z3.Solver()
        s.add(*fmls)
        text = s.to_smt2()
        try:
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", str(self.ex.prove_timeout_ms))
            parser = cvc5.InputParser(slv)
            parser.setStringInput(
                cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + text, "q"
            )
            sm = parser.getSymbolManager()
            res = "unknown"
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                o = str(cmd.invoke(slv, sm)).strip()
                if o in ("sat", "unsat", "unknown"):
                    res = o
            return res
        except Exception:
            return "unknown"


class Explorer:
    """explores all paths of one harness"""

    def __init__(
        self,
        feas_timeout_ms=3000,
        prove_timeout_ms=8000,
        max_paths=4000,
        max_decisions=1500,
        cross_cvc5=False,
        deadline=None,
    ):
        self.stats = Stats()
        self.feas_timeout_ms = feas_timeout_ms
        self.prove_timeout_ms = prove_timeout_ms
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.cross_cvc5 = cross_cvc5
        self.cross = {}
        self.deadline = deadline
        self.work = []
        self.labels = {}
        self.diverged = False

    def push(self, prefix):
        self.work.append(prefix)

    def note_label(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def run(self, body, on_path_done=None):
        """body(path) is executed once per path.  Returns list of issues."""
        global ENGINE
        issues = []
        self.work = [[]]
        while self.work:
            if self.stats.paths >= self.max_paths:
                issues.append(dict(kind="undecided", why="path limit"))
                break
            if self.deadline and time.time() > self.deadline:
                issues.append(dict(kind="undecided", why="time limit"))
                break
            prefix = self.work.pop()
            path = Path(self, prefix)
            ENGINE = path
            self.stats.paths += 1
            try:
                body(path)
                if on_path_done:
                    on_path_done(path)
            except CoveredElsewhere:
                if on_path_done:
                    on_path_done(path)
            except PathEnd:
                self.stats.pruned += 1
            except Diverged as err:
                self.diverged = True
                issues.append(dict(kind="undecided", why="re-execution diverged", where=_where(err)))
                break
            except Unsupported as err:
                issues.append(
                    dict(kind="undecided", why="unsupported: %s" % (err,), where=_where(err))
                )
            except ObligationFailed as err:
                issues.append(
                    dict(
                        kind="failed" if err.status == "sat" else "undecided",
                        why=err.label,
                        label=err.label,
                        status=err.status,
                        model=err.model,
                        detail=err.detail,
                        abstracted=list(path.abstracted),
                    )
                )
            except z3.Z3Exception as err:
                issues.append(dict(kind="undecided", why="z3: %s" % (err,)))
            except RecursionError as err:
                issues.append(dict(kind="undecided", why="recursion limit"))
            except Exception as err:  # raised by the code under contract
                label = "no unexpected exception"
                self.note_label(label)
                st, model = "unknown", None
                try:
                    st, model = path.full_check([])
                except BaseException:
                    pass
                if st == "unsat":
                    self.stats.pruned += 1
                else:
                    issues.append(
                        dict(
                            kind="failed" if st == "sat" else "undecided",
                            why="unexpected %s: %s" % (type(err).__name__, err),
                            label=label,
                            status=st,
                            model=model,
                            detail=_where(err),
                            abstracted=list(path.abstracted),
                        )
                    )
            finally:
                ENGINE = None
            if len(issues) > 40:
                issues.append(dict(kind="undecided", why="too many issues, stopped"))
                break
        return issues


def _where(err):
    import traceback

    tb = traceback.extract_tb(err.__traceback__)
    return " <- ".join(
        "%s:%s %s" % (f.filename.split("/")[-1], f.lineno, f.name) for f in tb[-4:][::-1]
    )
