"""Self-test of the verifier (setup_cmd).

1. Differential test of the numpy model: random programs of the modelled operations,
   run on pyvc.symnp and on the installed numpy, must agree (results, shapes, aliasing
   effects of writes, and exception types).
2. Negative controls: wrong contracts must fail, with a model that fails concretely.
3. Sanity of the engine: integer division, generic loops, aliasing.
"""
import random
import sys

import numpy as np

from . import sym, symnp
from .api import SymVC


def in_engine(fn, **kw):
    ex = sym.Explorer(**kw)
    out = []
    issues = ex.run(lambda p: out.append(fn(p)))
    return issues, out, ex


def mk_pair(rng, kind=None):
    nd = rng.randint(1, 3)
    shape = tuple(rng.randint(0 if rng.random() < 0.1 else 1, 4) for _ in range(nd))
    n = int(np.prod(shape))
    dt = kind or rng.choice([float, int, np.float32])
    real = (np.arange(n) + rng.randint(1, 50)).astype(dt).reshape(shape)
    vals = real.copy()
    s = symnp.make(shape, dt, lambda i: vals[tuple(i)].item())
    return real, s


def rnd_key(rng, nd):
    def one():
        r = rng.random()
        if r < 0.25:
            return rng.randint(-5, 5)
        if r < 0.3:
            return None
        f = lambda: rng.choice([None, None, rng.randint(-6, 6)])
        return slice(f(), f(), rng.choice([None, None, 1, 2, -1, -2]))

    k = [one() for _ in range(rng.randint(0, nd + (rng.random() < 0.1)))]
    if rng.random() < 0.2:
        k.insert(rng.randint(0, len(k)), Ellipsis)
    k = tuple(k)
    if len(k) == 1 and rng.random() < 0.5:
        k = k[0]
    return k


def same(real, s):
    if isinstance(s, symnp.ndarray):
        if not isinstance(real, np.ndarray):
            return False
        if tuple(s.shape) != real.shape or np.dtype(s.dtype) != real.dtype:
            return False
        return all(s._read(i) == real[i] for i in np.ndindex(*real.shape))
    return not isinstance(real, np.ndarray) and real == s


def ops(rng, nd):
    r = rng.random()
    if r < 0.35:
        k = rnd_key(rng, nd)
        return "getitem %r" % (k,), lambda m, a: a[k]
    if r < 0.5:
        ax = rng.sample(range(-nd, nd), 2) if nd else (0, 1)
        k = rng.randint(-5, 5)
        return "rot90 %r %r" % (k, ax), lambda m, a: m.rot90(a, k=k, axes=tuple(ax))
    if r < 0.6:
        ax = rng.choice([None, 0, -1, nd - 1, (0,), tuple(range(nd))])
        return "flip %r" % (ax,), lambda m, a: m.flip(a, axis=ax)
    if r < 0.7:
        o = list(range(nd))
        rng.shuffle(o)
        o = rng.choice([None, o])
        return "transpose %r" % (o,), lambda m, a: m.transpose(a, o)
    if r < 0.75:
        return "fliplr", lambda m, a: m.fliplr(a)
    if r < 0.78:
        return "flipud", lambda m, a: m.flipud(a)
    if r < 0.81:
        s, d = rng.randint(-nd, nd - 1), rng.randint(-nd, nd - 1)
        return "moveaxis", lambda m, a: m.moveaxis(a, s, d)
    if r < 0.84:
        return "copy", lambda m, a: m.array(a)
    if r < 0.87:
        return "neg", lambda m, a: -a
    if r < 0.9:
        c = rng.choice([2, 3])
        o = rng.choice([lambda a: a + c, lambda a: a * c, lambda a: c - a])
        return "arith", lambda m, a: o(a)
    if r < 0.92:
        def readonly(m, a):
            v = a[...]
            v.flags.writeable = False
            return v
        return "readonly", readonly
    if r < 0.95:
        ax, other = rng.randint(-nd - 1, nd), np.float64
        if rng.random() < 0.5:
            return "stack %d" % ax, lambda m, a: m.stack([a, (a + a).astype(other)], ax)
        return "concatenate %d" % ax, lambda m, a: m.concatenate([a.astype(other), a], axis=ax)
    if r < 0.97:
        return "ascontiguous", lambda m, a: m.ascontiguousarray(a)
    return "swapaxes", lambda m, a: m.swapaxes(a, 0, -1)


def attempt(f):
    try:
        return "ok", f()
    except sym.Unsupported:
        return "unsupported", None
    except sym.PathEnd:
        raise
    except Exception as e:
        return type(e).__name__, None


def differential(n, seed):
    stats = dict(steps=0, writes=0, unsupported=0, exceptions=0)

    def prog(rng):
        # non-identity views are contiguous or not by a demonic choice which the real
        # numpy decides: only the "copy" answer keeps aliasing comparable
        sym.ENGINE.objs["contig"] = None
        real, s = mk_pair(rng)
        r0, s0 = real, s
        trace = []
        for _ in range(rng.randint(1, 6)):
            nd = r0.ndim
            if nd and rng.random() < 0.35:
                k = rnd_key(rng, nd)
                if rng.random() < 0.6:
                    v = rng.randint(-9, 9)
                    rv, sv = v, v
                else:
                    rv, sv = mk_pair(rng, r0.dtype)
                trace.append("setitem %r" % (k,))
                a, _ = attempt(lambda: r0.__setitem__(k, rv))
                b, _ = attempt(lambda: s0.__setitem__(k, sv))
                stats["writes"] += 1
            else:
                name, op = ops(rng, nd)
                trace.append(name)
                if name == "ascontiguous":
                    sym.ENGINE.objs["contig"] = bool(r0.flags["C_CONTIGUOUS"])
                a, r1 = attempt(lambda: op(np, r0))
                b, s1 = attempt(lambda: op(symnp, s0))
                if a == "ok" and b == "ok":
                    if not isinstance(r1, np.ndarray):
                        assert same(r1, s1), (trace, r1, s1)
                        continue
                    r0, s0 = r1, s1
            stats["steps"] += 1
            if b == "unsupported":
                stats["unsupported"] += 1
                return
            if a != "ok" or b != "ok":
                assert (a == "ok") == (b == "ok"), (trace, a, b, r0.shape)
                stats["exceptions"] += 1
                return
            assert same(r0, s0), (trace, r0, [s0._read(i) for i in np.ndindex(*s0.shape)], s0.shape)
            assert same(real, s), ("aliasing", trace)

    rng = random.Random(seed)
    for k in range(n):
        sub = random.Random(rng.random())

        def body(path, sub=sub):
            prog(sub)

        issues, _, _ = in_engine(body)
        for i in issues:
            raise AssertionError("numpy model differs from numpy: %s %s" % (i["why"], i.get("detail")))
    return stats


def negative_controls():
    """contracts that do not hold must be refused"""
    done = 0

    def expect_failed(fn):
        nonlocal done
        ex = sym.Explorer()
        issues = ex.run(lambda p: fn(SymVC(p)))
        assert any(i["kind"] == "failed" and i["model"] is not None for i in issues), (fn.__name__, issues)
        done += 1

    def expect_proved(fn):
        nonlocal done
        ex = sym.Explorer()
        issues = ex.run(lambda p: fn(SymVC(p)))
        assert not issues and ex.stats.obligations > 0, (fn.__name__, issues)
        done += 1

    def wrong_div(vc):
        a, b = vc.int("a"), vc.int("b", 1)
        vc.prove((a // b) * b == a, "wrong")

    def right_div(vc):
        a, b = vc.int("a"), vc.int("b", 1)
        q, r = divmod(a, b)
        vc.prove(q * b + r == a, "euclid")
        vc.prove(r < b, "r < b")
        vc.prove(r >= 0, "r >= 0")

    def wrong_neg_mod(vc):
        a = vc.int("a")
        vc.prove((-a) % 4 == a % 4, "wrong")

    def wrong_slice(vc):
        vc.loader
        n = vc.int("n", 1)
        a = vc.array("A", (n,))
        k = vc.int("k", 0)
        vc.assume(k < n)
        b = a[::-1]
        vc.prove_eq(vc.at(b, (k,)), vc.at(a, (k,)), "wrong")

    def right_slice(vc):
        vc.loader
        n = vc.int("n", 1)
        a = vc.array("A", (n,))
        k = vc.int("k", 0)
        vc.assume(k < n)
        b = a[::-1]
        vc.prove_eq(vc.at(b, (k,)), vc.at(a, (n - 1 - k,)), "reverse")

    def wrong_alias(vc):
        vc.loader
        n = vc.int("n", 2)
        a = vc.array("A", (n,))
        old = vc.at(a, (0,))
        b = a[0:2]
        b[:] = 0
        vc.prove_eq(vc.at(a, (0,)), old, "wrong: the view aliases")

    def wrong_real(vc):
        x, y = vc.real("x"), vc.real("y", nonzero=True)
        vc.prove_eq(x / y * y, x + 1, "wrong")

    for f in (wrong_div, wrong_neg_mod, wrong_slice, wrong_alias, wrong_real):
        expect_failed(f)
    for f in (right_div, right_slice):
        expect_proved(f)
    return done


def main():
    seed = 1
    st = differential(6000, seed)
    assert st["unsupported"] < st["steps"] * 0.1, st
    n = negative_controls()
    print("selftest: numpy model agrees with numpy %s: %s; %d controls" % (np.__version__, st, n))
    return 0


if __name__ == "__main__":
    sys.exit(main())
