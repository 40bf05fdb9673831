"""C17: views index the compute domain as documented."""
from .common import *

STEPS = [None, 1, 2, 3, -1, -2]
BOUNDS = ["", "+", "-"]
SLICES = [("slice", a, b, s) for s in STEPS for a in BOUNDS for b in BOUNDS]
KINDS = [("int",), ("halo-int",)] + SLICES
SOME = [("int",), ("slice", "+", "-", None), ("slice", "", "", -1)]
CORNERS = {"southwest": SW, "southeast": SE, "northwest": NW, "northeast": NE, "interior": None}
DIMS2 = [(Y, X), (XI, YI), (X, YI)]
OPTS = dict(spot_n=3)


def units(tier):
    u = [("compute", dict(dims=("a",), kinds=(k,))) for k in KINDS]
    u += [("compute", dict(dims=("a", X), kinds=(k, s) if n % 2 else (s, k)))
          for n, k in enumerate(KINDS) for s in (SOME if tier == "thorough" else SOME[n % 3:][:1])]
    u += [("compute", dict(dims=(Z, Y, X), kinds=ks)) for ks in
          [(SOME[1], SOME[0], SOME[2]), (SOME[0], SOME[1]), (SOME[1],), (SOME[2], SOME[1]), (SOME[0],), ()]]
    corner_kinds = [("int",)] + [("slice", a, b, s) for s in (None, 2, -1) for a in ("", "+") for b in ("", "+")]
    for v in CORNERS:
        for d in DIMS2:
            for n, k in enumerate(corner_kinds):
                for s in ([corner_kinds[0], corner_kinds[4], corner_kinds[1]] if d == (Y, X) else [corner_kinds[4]]):
                    u.append(("corner", dict(view=v, dims=d, kinds=(k, s) if n % 2 else (s, k))))
        u.append(("corner", dict(view=v, dims=(Z, YI, X), kinds=(corner_kinds[4],) * 3)))
        u.append(("corner", dict(view=v, dims=(X, ZI, Y), kinds=(corner_kinds[4],))))
        u.append(("corner", dict(view=v, dims=(XI,), kinds=(corner_kinds[4],))))
        u.append(("too_many", dict(view=v)))
        u.append(("zero_dimensions", dict(view=v)))
    u += [("too_many", dict(view=None)), ("zero_dimensions", dict(view=None))]
    u += [("by_name", dict(view=v, dims=d)) for v in [None] + list(CORNERS) for d in [(Y, X), (X, Z, YI)]]
    return u


# ---------------------------------------------------------------- specification


def compute_axis(vc, kind, tag, origin, extent, after):
    """an index of one axis and the array points it stands for: ("i", point) or
    ("r", first, count, step)"""
    if kind[0] == "int":
        i = vc.int("i" + tag, 0)
        vc.assume(i < extent)
        return i, ("i", origin + i)
    if kind[0] == "halo-int":
        h = vc.int("h" + tag, 0)
        if vc.bool("low" + tag):
            vc.assume(h < origin)
            return h - origin, ("i", h)
        vc.assume(h < after)
        return extent + h, ("i", origin + extent + h)
    _, a, b, step = kind
    back = step is not None and step < 0
    # bounds in the compute domain's own coordinates, as a list of length `extent` has them
    raw, pos = [], []
    for which, sign, default in (("s", a, extent - 1 if back else 0), ("e", b, -1 if back else extent)):
        if sign == "":
            raw.append(None)
            pos.append(default)
        elif sign == "+":
            v = vc.int(which + tag, 0)
            if back and which == "s":
                vc.assume(v < extent + after)
            else:
                vc.assume(v <= extent + after)
            raw.append(v)
            pos.append(v)
        else:
            v = vc.int(which + tag, None, -1, small=5)
            if back:
                vc.assume(v >= -extent)
            raw.append(v)
            pos.append(0 if v + extent < 0 else v + extent)
    return slice(raw[0], raw[1], step), stretch(origin + pos[0], origin + pos[1], step)


def stretch(first, stop, step):
    s = 1 if step is None else step
    d = stop - first if s > 0 else first - stop
    k = abs(s)
    count = (d + k - 1) // k if d > 0 else 0
    return ("r", first, count, s)


def corner_axis(vc, kind, tag, dim, view, origin, extent, after):
    if CORNERS[view] is None:
        base, end = origin, origin + extent
    else:
        dy, dx = STEP[CORNERS[view]]
        s = dy if dim in YD else dx if dim in XD else -1
        base = end = origin if s < 0 else origin + extent
    total = origin + extent + after
    if kind[0] == "int":
        p = vc.int("i" + tag, 0)
        vc.assume(p < total)
        return p - base, ("i", p)
    _, a, b, step = kind
    back = step is not None and step < 0
    raw, pos = [], []
    for which, sign, default, anchor in (
        ("s", a, origin + extent - 1 if back else origin, base),
        ("e", b, origin - 1 if back else origin + extent, end),
    ):
        if sign == "":
            raw.append(None)
            pos.append(default)
        else:
            p = vc.int(which + tag, 0)
            if back and which == "s":
                vc.assume(p < total)
            else:
                vc.assume(p <= total)
            raw.append(p - anchor)
            pos.append(p)
    return slice(raw[0], raw[1], step), stretch(pos[0], pos[1], step)


def where(p, region):
    """index into the selection of array point p, or None"""
    out = []
    for i, r in zip(p, region):
        if r[0] == "i":
            if i != r[1]:
                return None
            continue
        _, first, count, step = r
        d = i - first if step > 0 else first - i
        k = abs(step)
        if d < 0:
            return None
        if k > 1 and d % k != 0:
            return None
        n = d // k if k > 1 else d
        if n >= count:
            return None
        out.append(n)
    return tuple(out)


def point(k, region):
    k = list(k)
    return tuple(r[1] if r[0] == "i" else r[1] + r[3] * k.pop(0) for r in region)


def check_selection(vc, get, put, data, region, label):
    shape = [r[2] for r in region if r[0] == "r"]
    before = snapshot(vc, data)
    got = get()
    vc.prove_shape(getattr(got, "shape", ()), shape, label + ": shape")
    for k in vc.indices(shape):
        vc.prove_eq(vc.at(got, k), vc.at(before, point(k, region)), label + ": content")
    for p in vc.indices(data.shape):
        vc.prove_eq(vc.at(data, p), vc.at(before, p), label + ": reading changes nothing")

    def written(new, how):
        for p in vc.indices(data.shape):
            k = where(p, region)
            if k is None:
                vc.prove_eq(vc.at(data, p), vc.at(before, p), label + ": other points untouched by " + how)
            else:
                vc.prove_eq(vc.at(data, p), vc.at(new, k), label + ": data written by " + how)

    if shape:
        new = vc.array("through", shape)
        got[...] = new
        written(new, "writing through the selection")
    new = vc.array("assigned", shape)
    put(new)
    written(new, "assigning to the selection")


def spelled(vc, index):
    """an index tuple as given, as a list, or bare when it has one entry"""
    forms = ["tuple", "list"] + (["bare"] if len(index) == 1 else [])
    ints = [i for i in index if not isinstance(i, slice)]
    f = vc.choice("form", forms) if ints or len(index) == 1 else forms[0]
    return tuple(index) if f == "tuple" else list(index) if f == "list" else index[0]


def complete(regions, box):
    """missing trailing axes select the compute domain"""
    n = len(regions)
    return regions + [("r", o, e, 1) for o, e in zip(box.origin[n:], box.extent[n:])]


# -------------------------------------------------------------------- contracts


def compute(vc, dims, kinds):
    box = Box(vc, dims)
    q = box.quantity(vc)
    axes = [compute_axis(vc, k, str(n), o, e, b)
            for n, (k, o, e, b) in enumerate(zip(kinds, box.origin, box.extent, box.after))]
    index = spelled(vc, [a[0] for a in axes])
    region = complete([a[1] for a in axes], box)
    check_selection(vc, lambda: q.view[index], lambda v: q.view.__setitem__(index, v), q.data, region, "view")
    vc.prove_shape(q.view.origin, box.origin, "view origin")
    vc.prove_shape(q.view.extent, box.extent, "view extent")


def corner(vc, view, dims, kinds):
    box = Box(vc, dims)
    q = box.quantity(vc)
    axes = [corner_axis(vc, k, str(n), d, view, o, e, b)
            for n, (k, d, o, e, b) in enumerate(zip(kinds, dims, box.origin, box.extent, box.after))]
    index = spelled(vc, [a[0] for a in axes])
    region = complete([a[1] for a in axes], box)
    v = getattr(q.view, view)
    check_selection(vc, lambda: v[index], lambda x: v.__setitem__(index, x), q.data, region, view + " view")


def too_many(vc, view):
    box = Box(vc, (Y, X))
    q = box.quantity(vc)
    v = q.view if view is None else getattr(q.view, view)
    before = snapshot(vc, q.data)
    for extra in ((0, 0, 0), (slice(None),) * 3, (slice(0, 1), 0, 0, 0)):
        vc.expect_raises(IndexError, lambda: v[extra], "too many indices are refused")
        vc.expect_raises(IndexError, lambda: v.__setitem__(extra, 1.0), "too many indices are refused on writing")
    for p in vc.indices(q.data.shape):
        vc.prove_eq(vc.at(q.data, p), vc.at(before, p), "a refused index changes nothing")


def zero_dimensions(vc, view):
    q = vc.mod("quantity").Quantity(vc.array("data", ()), dims=[], units="m")
    v = q.view if view is None else getattr(q.view, view)
    for index in ((), slice(None, None)):
        vc.prove_eq(vc.at(v[index], ()), vc.at(q.data, ()), "the only value")
    vc.expect_raises(IndexError, lambda: v[(0,)], "an index into zero dimensions is refused")
    vc.expect_raises(IndexError, lambda: v[slice(0, 1)], "a slice of zero dimensions is refused")
    new = vc.array("assigned", ())
    index = vc.choice("index", [(), slice(None, None)])
    v[index] = new
    vc.prove_eq(vc.at(q.data, ()), vc.at(new, ()), "the only value is assigned")


def by_name(vc, view, dims):
    """names in any order address the same points as positions; unnamed ones the compute domain"""
    box = Box(vc, dims)
    q = box.quantity(vc)
    kinds = [("slice", "+", "+", None), ("int",), ("slice", "", "+", None)]
    axis = lambda n: (
        compute_axis(vc, kinds[n], str(n), box.origin[n], box.extent[n], box.after[n]) if view is None else
        corner_axis(vc, kinds[n], str(n), dims[n], view, box.origin[n], box.extent[n], box.after[n])
    )
    named = vc.choice("named", [[0], [1], [1, 0], [len(dims) - 1, 0], []])
    axes = {n: axis(n) for n in named}
    region = [axes[n][1] if n in axes else ("r", box.origin[n], box.extent[n], 1) for n in range(len(dims))]
    v = q if view is None else getattr(q.view, view)
    kw = {dims[n]: axes[n][0] for n in named}
    got = v.sel(**kw)
    shape = [r[2] for r in region if r[0] == "r"]
    before = snapshot(vc, q.data)
    vc.prove_shape(getattr(got, "shape", ()), shape, "selection by name: shape")
    for k in vc.indices(shape):
        vc.prove_eq(vc.at(got, k), vc.at(before, point(k, region)), "selection by name: content")
    if shape:
        new = vc.array("through", shape)
        got[...] = new
        for p in vc.indices(q.data.shape):
            k = where(p, region)
            vc.prove_eq(vc.at(q.data, p), vc.at(before, p) if k is None else vc.at(new, k),
                        "selection by name is a window onto the data")
