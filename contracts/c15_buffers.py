"""C15: recycled buffers are exclusive, well-formed and transparent."""
from .common import *

LAYOUTS = ["whole", "block", "transposed", "reversed", "column", "strided", "picked", "moved"]


def units(tier):
    u = [("history", dict(depth=d, same=s)) for d in (2, 3) for s in (True, False)]
    u += [("step", dict(cached=c, held=h)) for c in (None, 0, 1, 2, "any") for h in (0, 1)]
    u += [("step_failed", dict(cached=c)) for c in (None, 0, 1, "any")]
    for lay in LAYOUTS:
        for dtype in ("float64", "int32"):
            u.append(("send", dict(layout=lay, dtype=dtype, history=dtype == "int32")))
            u.append(("recv", dict(layout=lay, dtype=dtype, history=dtype == "int32")))
    u += [("send_and_recv", dict(layout=lay)) for lay in LAYOUTS]
    u += [("nothing_to_send", {}), ("contiguity", {}), ("random_history", {})]
    return u


class Allocator:
    """behaves like numpy.empty; remembers what it has produced"""

    def __init__(self, vc):
        self.vc, self.made = vc, []

    def __call__(self, shape, dtype=float):
        a = self.vc.np.empty(tuple(shape), dtype=dtype)
        self.made.append(a)
        return a


def overlap(vc, a, b):
    if vc.symbolic:
        return a._buf is b._buf
    return vc.np.shares_memory(a, b)


def well_formed(vc, buf, alloc, shape, dtype):
    vc.prove_shape(buf.shape, shape, "the buffer has the requested shape")
    vc.prove(buf.dtype == vc.np.dtype(dtype), "the buffer has the requested type")
    vc.prove(buf.flags["C_CONTIGUOUS"], "the buffer is contiguous")
    vc.prove(any(overlap(vc, buf, a) or a is buf for a in alloc.made), "the buffer comes from the requested allocator")


def history(vc, depth, same):
    """any interleaving of `depth` nested uses after each other and within each other"""
    B = vc.mod("buffer")
    allocs = [Allocator(vc), Allocator(vc)]
    shapes = [(vc.int("n", 1, small=3), 2)]
    shapes.append(shapes[0] if same else (vc.int("k", 1, small=3), 2))
    held, n_used = [], [0]

    def use(level):
        if n_used[0] >= depth + 1:
            return
        n_used[0] += 1
        kinds = [(0, "float64"), (1, "float64"), (1, "float32"), (1, ">f8")]
        which, dtype = vc.choice("what%d" % n_used[0], kinds[:2] if depth > 2 else kinds)
        alloc = allocs[vc.choice("alloc%d" % n_used[0], [0, 1]) if 1 < n_used[0] and depth == 2 else 0]
        with B.array_buffer(alloc, shapes[which], vc.np.dtype(dtype)) as buf:
            well_formed(vc, buf, alloc, shapes[which], dtype)
            for other, content in held:
                vc.prove(not overlap(vc, buf, other), "a buffer in use is not given to another user")
            mine = vc.array("content%d" % n_used[0], shapes[which], dtype)
            buf[...] = mine
            held.append((buf, mine))
            if level < depth:
                if vc.bool("nest%d" % n_used[0]):
                    use(level + 1)
            for k in vc.indices(buf.shape):
                vc.prove_eq(vc.at(buf, k), vc.at(mine, k), "nobody else writes to a buffer in use")
            held.pop()
        if level == 1:
            use(level)

    use(1)


def cache_of(vc, B):
    """the module's store of free buffers, if it is a mapping from keys to lists"""
    c = getattr(B, "BUFFER_CACHE", None)
    if not isinstance(c, dict):
        if vc.symbolic:
            raise vc.unsupported("the buffer store is not a mapping named BUFFER_CACHE")
        return None
    return c


class FreeBuffers:
    """a list of any length of distinct free buffers, of which only the ends are looked at:
    known buffers, then any number of buffers not yet seen, then known buffers"""

    def __init__(self, vc, n, make):
        self.vc, self.n, self.make, self.left, self.right = vc, n, make, [], []

    def __pyvc_len__(self):
        return len(self.left) + self.n + len(self.right)

    def __bool__(self):
        return bool(self.left or self.right) or bool(self.n > 0)

    def __len__(self):
        raise self.vc.unsupported("the length of the store")

    __iter__ = __contains__ = __reversed__ = remove = index = sort = reverse = __len__

    def _unseen(self):
        if bool(self.n > 0):
            self.n = self.n - 1
            return self.make()

    def append(self, x):
        self.right.append(x)

    def extend(self, xs):
        self.right.extend(xs)

    def insert(self, k, x):
        if k != 0:
            raise self.vc.unsupported("insertion within the store")
        self.left.insert(0, x)

    def clear(self):
        self.left, self.right, self.n = [], [], 0

    def pop(self, k=-1):
        near, far = {-1: (self.right, self.left), 0: (self.left, self.right)}.get(k, (None, None))
        if near is None:
            raise self.vc.unsupported("removal within the store")
        if not near:
            x = self._unseen()
            if x is not None:
                return x
            return far.pop(k)
        return near.pop(k)

    def __getitem__(self, k):
        if k not in (0, -1):
            raise self.vc.unsupported("elements within the store")
        x = self.pop(k)
        self.left.insert(0, x) if k == 0 else self.right.append(x)
        return x

    def __delitem__(self, k):
        self.pop(k)

    def seen(self):
        return self.left + self.right


def free_buffers(vc, cached, make):
    if cached != "any":
        return [make() for _ in range(cached)]
    n = vc.int("n_free", 0, small=7)
    return FreeBuffers(vc, n, make) if vc.symbolic else [make() for _ in range(n)]


def arbitrary_store(vc, B, cached, held, alloc, shape, dtype):
    """any store satisfying the invariant: the free buffers of a key have the key's shape,
    type and allocator, are contiguous, and are distinct from each other and from the
    buffers in use"""
    cache = cache_of(vc, B)
    used = [alloc(shape, dtype=dtype) for _ in range(held)]
    if cache is None:
        vc.assume(False)
    if cached is not None:
        cache[(alloc, shape, dtype)] = free_buffers(vc, cached, lambda: alloc(shape, dtype=dtype))
    other = (vc.int("other_n", 1, small=3), 2)
    other_alloc = Allocator(vc)
    cache.setdefault((other_alloc, other, dtype), []).append(other_alloc(other, dtype=dtype))
    if vc.bool("same_allocator"):
        cache.setdefault((alloc, other, dtype), []).append(alloc(other, dtype=dtype))
        for name in (">f8", "float32", "int64"):
            t = vc.np.dtype(name)
            cache.setdefault((alloc, shape, t), []).append(alloc(shape, dtype=t))
    return cache, used


def seen(arrays):
    """those not seen are free, distinct and well-formed as before"""
    return arrays.seen() if isinstance(arrays, FreeBuffers) else arrays


def size(cache):
    return sum(v.__pyvc_len__() if isinstance(v, FreeBuffers) else len(v) for v in cache.values())


def invariant(vc, cache, used):
    free = []
    for (alloc, shape, dtype), arrays in cache.items():
        for a in seen(arrays):
            well_formed(vc, a, alloc, shape, dtype)
            for b in free + used:
                vc.prove(not overlap(vc, a, b), "free buffers are distinct from each other and from those in use")
            free.append(a)
    return free


def step(vc, cached, held):
    """one use from any store satisfying the invariant re-establishes it"""
    B = vc.mod("buffer")
    alloc = Allocator(vc)
    shape, dtype = (vc.int("n", 1, small=3), 2), vc.np.dtype("float64")
    cache, used = arbitrary_store(vc, B, cached, held, alloc, shape, dtype)
    n_free = size(cache)
    some = cached and (cached != "any" or bool(size({0: cache[(alloc, shape, dtype)]}) > 0))
    with B.array_buffer(alloc, shape, dtype) as buf:
        well_formed(vc, buf, alloc, shape, dtype)
        for other in used:
            vc.prove(not overlap(vc, buf, other), "a buffer in use is not given to another user")
        invariant(vc, cache, used + [buf])
    invariant(vc, cache, used)
    vc.prove(size(cache) <= n_free + 1, "a buffer is returned at most once")
    if some:
        vc.prove(size(cache) <= n_free, "the store does not grow while it has a free buffer of the kind")


def step_failed(vc, cached):
    """also when the use ends in an exception"""
    B = vc.mod("buffer")
    alloc = Allocator(vc)
    shape, dtype = (vc.int("n", 1, small=3), 2), vc.np.dtype("float64")
    cache, used = arbitrary_store(vc, B, cached, 1, alloc, shape, dtype)

    class Failure(Exception):
        pass

    def fail():
        with B.array_buffer(alloc, shape, dtype) as buf:
            invariant(vc, cache, used + [buf])
            raise Failure()

    vc.expect_raises(Failure, fail, "exceptions pass through")
    invariant(vc, cache, used)


def laid_out(vc, layout, dtype):
    """an array in some memory layout: (base data, array, index map array -> base)"""
    n, m, o = vc.int("n", 1, small=3), vc.int("m", 1, small=3), vc.int("o", 0, small=2)
    if layout == "whole":
        base = vc.array("base", (n, m), dtype)
        return base, base, lambda k: k
    if layout == "block":
        base = vc.array("base", (n + o + 1, m + 2), dtype)
        return base, base[o:o + n, 1:1 + m], lambda k: (k[0] + o, k[1] + 1)
    if layout == "transposed":
        base = vc.array("base", (m, n), dtype)
        return base, base.T, lambda k: (k[1], k[0])
    if layout == "reversed":
        base = vc.array("base", (n, m), dtype)
        return base, vc.np.flip(base, 1), lambda k: (k[0], m - 1 - k[1])
    if layout == "column":
        base = vc.array("base", (n, m), dtype)
        c = vc.int("c", 0, m - 1)
        return base, base[:, c], lambda k: (k[0], c)
    if layout == "strided":
        base = vc.array("base", (2 * n, m), dtype)
        return base, base[::2], lambda k: (2 * k[0], k[1])
    if layout == "picked":
        base = vc.array("base", (n, 3, m), dtype)
        return base, base[:, 1:2, :], lambda k: (k[0], k[1] + 1, k[2])
    base = vc.array("base", (n, 2, m), dtype)
    return base, base.transpose(2, 0, 1), lambda k: (k[1], k[2], k[0])


def earlier_use(vc, B, alloc, arr):
    """the same kinds of buffers have been used before, with other contents"""
    with B.array_buffer(alloc, arr.shape, arr.dtype) as a:
        with B.array_buffer(alloc, arr.shape, arr.dtype) as b:
            a[...] = vc.array("old_a", arr.shape, arr.dtype)
            b[...] = vc.array("old_b", arr.shape, arr.dtype)


def timer_of(vc):
    return vc.choice("timer", [None, vc.mod("_timing").Timer()])


def send(vc, layout, dtype, history):
    B = vc.mod("buffer")
    alloc = Allocator(vc)
    base, arr, at = laid_out(vc, layout, dtype)
    before = snapshot(vc, base)
    if history:
        earlier_use(vc, B, alloc, arr)
    timer = timer_of(vc)
    with B.send_buffer(alloc, arr, timer=timer) as buf:
        vc.prove_shape(buf.shape, arr.shape, "the send buffer has the array's shape")
        vc.prove(buf.dtype == arr.dtype, "the send buffer has the array's type")
        vc.prove(buf.flags["C_CONTIGUOUS"], "the send buffer is contiguous")
        for k in vc.indices(arr.shape):
            vc.prove_eq(vc.at(buf, k), vc.at(before, at(k)), "the send buffer holds the array's values")
    for p in vc.indices(base.shape):
        vc.prove_eq(vc.at(base, p), vc.at(before, p), "sending does not modify the array")
    if timer is not None:
        timer.disable()


def recv(vc, layout, dtype, history):
    B = vc.mod("buffer")
    alloc = Allocator(vc)
    base, arr, at = laid_out(vc, layout, dtype)
    before = snapshot(vc, base)
    if history:
        earlier_use(vc, B, alloc, arr)
    message = vc.array("message", arr.shape, dtype)
    timer = timer_of(vc)
    with B.recv_buffer(alloc, arr, timer=timer) as buf:
        vc.prove_shape(buf.shape, arr.shape, "the receive buffer has the array's shape")
        vc.prove(buf.dtype == arr.dtype, "the receive buffer has the array's type")
        vc.prove(buf.flags["C_CONTIGUOUS"], "the receive buffer is contiguous")
        buf[...] = message
    for k in vc.indices(arr.shape):
        vc.prove_eq(vc.at(base, at(k)), vc.at(message, k), "the array holds the received values")
    for p in vc.indices(base.shape):
        k = position(p, at, arr.shape, layout)
        if k is None:
            vc.prove_eq(vc.at(base, p), vc.at(before, p), "receiving changes nothing but the array")
    if timer is not None:
        timer.disable()


def position(p, at, shape, layout):
    """index in the array of base element p, or None"""
    zero = at((0,) * len(shape))
    if layout in ("whole", "transposed", "reversed", "moved"):
        return p
    if layout == "block":
        return inside(p, [(zero[0], zero[0] + shape[0]), (zero[1], zero[1] + shape[1])])
    if layout == "column":
        return p if p[1] == zero[1] else None
    if layout == "strided":
        return p if p[0] % 2 == 0 else None
    return p if p[1] == 1 else None


def send_and_recv(vc, layout):
    """a receive buffer in use at the same time as a send buffer of the same kind"""
    B = vc.mod("buffer")
    alloc = Allocator(vc)
    base, arr, at = laid_out(vc, layout, "float64")
    before = snapshot(vc, base)
    target_base = vc.array("target", base.shape)
    target = {
        "whole": lambda b: b, "block": None, "transposed": lambda b: b.T,
    }.get(layout)
    if target is None:
        wide = vc.array("wide", tuple(arr.shape) + (2,))
        target = lambda b: wide[..., 1]
    into = target(target_base)
    message = vc.array("message", arr.shape)
    first = vc.bool("recv_first")
    if first:
        with B.recv_buffer(alloc, into) as r, B.send_buffer(alloc, arr) as s:
            r[...] = message
            for k in vc.indices(arr.shape):
                vc.prove_eq(vc.at(s, k), vc.at(before, at(k)), "receiving does not disturb what is being sent")
    else:
        with B.send_buffer(alloc, arr) as s, B.recv_buffer(alloc, into) as r:
            r[...] = message
            for k in vc.indices(arr.shape):
                vc.prove_eq(vc.at(s, k), vc.at(before, at(k)), "receiving does not disturb what is being sent")
    for k in vc.indices(arr.shape):
        vc.prove_eq(vc.at(into, k), vc.at(message, k), "the array holds the received values")
    for p in vc.indices(base.shape):
        vc.prove_eq(vc.at(base, p), vc.at(before, p), "sending does not modify the array")


def nothing_to_send(vc):
    B = vc.mod("buffer")
    alloc = Allocator(vc)
    with B.send_buffer(alloc, None) as s:
        vc.prove(s is None, "without an array there is nothing to send")
    with B.recv_buffer(alloc, None) as r:
        vc.prove(r is None, "without an array there is nothing to receive")
    vc.prove(not alloc.made, "nothing is allocated without an array")


def contiguity(vc):
    """assign_array copies all values and nothing else"""
    U = vc.mod("utils")
    lay = vc.choice("layout", LAYOUTS)
    base, arr, at = laid_out(vc, lay, "float64")
    source = vc.array("source", arr.shape)
    s0 = snapshot(vc, source)
    U.assign_array(arr, source)
    for k in vc.indices(arr.shape):
        vc.prove_eq(vc.at(arr, k), vc.at(s0, k), "assigning copies every value")
        vc.prove_eq(vc.at(source, k), vc.at(s0, k), "assigning leaves the source alone")


def random_history(vc):
    """bounded: long random histories of nested and failing uses through the public API"""
    B = vc.mod("buffer")
    allocs = [vc.np.empty, vc.np.zeros]
    held = []

    class Failure(Exception):
        pass

    def use(depth):
        shape = (vc.rng.randint(0, 2), vc.rng.randint(1, 2))
        dtype = vc.np.dtype(vc.rng.choice(["float64", "float32", "int32", "bool", ">f8", ">i4", "uint32"]))
        with B.array_buffer(vc.rng.choice(allocs), shape, dtype) as buf:
            vc.prove(buf.shape == shape and buf.dtype == dtype and buf.flags["C_CONTIGUOUS"], "the buffer is as requested")
            for other in held:
                vc.prove(buf is not other and not vc.np.shares_memory(buf, other), "a buffer in use is not given to another user")
            held.append(buf)
            for _ in range(vc.rng.randint(0, 3 if depth < 4 else 0)):
                try:
                    use(depth + 1)
                except Failure:
                    pass
            held.pop()
            if vc.rng.random() < 0.2 and depth:
                raise Failure()

    for _ in range(10):
        try:
            use(0)
        except Failure:
            pass


random_history.mode = "bounded"
random_history.runs = 40
