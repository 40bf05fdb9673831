"""C19: allocated quantities have consistent halo geometry."""
from .common import *

CASES = [(X,), (XI,), (Y,), (YI,), (Z,), (ZI,), (Y, X), (X, Y), (XI, YI), (YI, X), (Z, Y, X), (X, Y, Z),
         (ZI, YI, XI), (Y, "yland_interface", XI), ("yland_interface", Z, YI, X), ("soil", "yland_interface"), ()]
SOURCES = ["sizer", "tile_params", "tile_params_partitioner", "namelist", "namelist_partitioner"]
ASSUMPTIONS = ["the tile's cells divide evenly over the layout; halo width >= 0; nz >= 1"]


def units(tier):
    u = []
    for d in CASES:
        for s in SOURCES:
            if s in ("sizer", "tile_params") or d in ((Y, X), (XI, YI), (Z, Y, X), (ZI, YI, XI), (X,), (YI,)):
                u.append(("geometry", dict(dims=d, source=s)))
    for kind in ("empty", "zeros", "ones"):
        for d in [(Y, X), (Z, YI, X), (XI, "yland_interface"), (ZI, Y, XI), (X,), ()]:
            for module in ("numpy", "storage"):
                u.append(("allocate", dict(kind=kind, dims=d, module=module)))
    u += [("variants", dict(dims=d)) for d in [(Y, X), (X, Z, Y), ("yland_interface", Y)]]
    u += [("independent", {}), ("halo_fits", {}), ("sizer_unchanged", {})]
    u += [("other_sizers", dict(changed=c)) for c in ("nx", "ny", "nz", "n_halo", "extra")]
    return u


class Tile:
    """a tile of lx*mx by ly*my cells, rank at any position"""

    def __init__(self, vc, source):
        self.ly, self.lx = vc.int("ly", 1, small=3), vc.int("lx", 1, small=3)
        self.my, self.mx = vc.int("my", 1, small=4), vc.int("mx", 1, small=4)
        self.nz = vc.int("nz", 1, small=4)
        self.halo = 3 if source.startswith("namelist") else vc.int("n_halo", 0, small=4)
        self.extra = {} if source.startswith("namelist") else {"yland_interface": vc.int("yland_interface", 1, small=3), "soil": 4}
        I = vc.mod("initialization.sizer")
        P = vc.mod("partitioner")
        part = P.TilePartitioner((self.ly, self.lx)) if source.endswith("partitioner") else None
        rank = vc.int("j", 0, self.ly - 1) * self.lx + vc.int("i", 0, self.lx - 1)
        nx, ny = self.mx * self.lx, self.my * self.ly
        if source == "sizer":
            self.sizer = I.SubtileGridSizer(self.mx, self.my, self.nz, self.halo, self.extra)
        elif source.startswith("tile_params"):
            kw = dict(tile_partitioner=part, tile_rank=rank) if part is not None else {}
            self.sizer = I.SubtileGridSizer.from_tile_params(
                nx_tile=nx, ny_tile=ny, nz=self.nz, n_halo=self.halo,
                extra_dim_lengths=self.extra, layout=(self.ly, self.lx), **kw)
        else:
            nml = {"fv_core_nml": {"npx": nx + 1, "npy": ny + 1, "npz": self.nz,
                                   "layout": (self.ly, self.lx)}}
            args = (part, rank) if part is not None else ()
            self.sizer = I.SubtileGridSizer.from_namelist(nml, *args)

    def cells(self, d):
        if d in XD:
            return self.mx
        if d in YD:
            return self.my
        if d in (Z, ZI):
            return self.nz
        return self.extra[d]

    def extent(self, d):
        return self.cells(d) + n_shared(d)

    def origin(self, d):
        return self.halo if d in HORIZ else 0

    def check(self, vc, dims, origin, extent, shape):
        vc.prove_shape(extent, [self.extent(d) for d in dims], "extent is the rank's share (one more on interfaces)")
        vc.prove_shape(origin, [self.origin(d) for d in dims], "origin is the halo on horizontal dimensions only")
        vc.prove(len(shape) == len(dims), "one length per dimension")
        for d, o, e, n in zip(dims, origin, extent, shape):
            if d in HORIZ:
                vc.prove(n >= o + e + self.halo, "a full halo on both sides fits")
            elif d in (Z, ZI):
                vc.prove(n >= e, "the compute domain fits")
            else:
                vc.prove(n == e, "other dimensions have exactly their length")


OTHER = {X: XI, XI: X, Y: YI, YI: Y, Z: ZI, ZI: Z}


def geometry(vc, dims, source):
    t = Tile(vc, source)
    if source.startswith("namelist"):
        for d in dims:
            vc.assume(d in OTHER)
    form = vc.choice("form", [tuple, list])
    s = t.sizer
    shape = s.get_shape(form(dims))
    t.check(vc, dims, s.get_origin(form(dims)), s.get_extent(form(dims)), shape)
    vc.prove_shape(s.get_shape([OTHER.get(d, d) for d in dims]), shape, "same shape for centred and interface variants")
    lengths = s.dim_extents
    for d in dims:
        vc.prove(lengths[d] == t.extent(d), "dimension lengths")


def variants(vc, dims):
    """every staggering of the same dimensions gives the same shape"""
    import itertools

    t = Tile(vc, "tile_params")
    shape = t.sizer.get_shape(dims)
    for v in itertools.product(*[(d, OTHER[d]) if d in OTHER else (d,) for d in dims]):
        vc.prove_shape(t.sizer.get_shape(v), shape, "same shape whatever the staggering")
        t.check(vc, v, t.sizer.get_origin(v), t.sizer.get_extent(v), t.sizer.get_shape(v))


class Storage:
    """a numpy-like module whose allocators take a default_origin, as gt4py's do"""

    def __init__(self, vc):
        self.np, self.origins = vc.np, []

    def _alloc(self, fn, shape, dtype, default_origin):
        self.origins.append(default_origin)
        return fn(shape, dtype=dtype)

    def empty(self, shape, dtype=float, default_origin=None):
        return self._alloc(self.np.empty, shape, dtype, default_origin)

    def zeros(self, shape, dtype=float, default_origin=None):
        return self._alloc(self.np.zeros, shape, dtype, default_origin)

    def ones(self, shape, dtype=float, default_origin=None):
        return self._alloc(self.np.ones, shape, dtype, default_origin)


def allocate(vc, kind, dims, module):
    t = Tile(vc, "tile_params")
    storage = Storage(vc) if module == "storage" else None
    F = vc.mod("initialization.allocator").QuantityFactory(t.sizer, storage or vc.np)
    dtype = vc.choice("dtype", ["float64", "float32", "int32", None])
    kw = {} if dtype is None else {"dtype": vc.np.dtype(dtype)}
    form = vc.choice("form", [tuple, list])
    q = getattr(F, kind)(form(dims), "kg m^-2", **kw)
    vc.prove(q.units == "kg m^-2", "units are kept")
    vc.prove(q.dims == tuple(dims), "dimensions are kept")
    vc.prove(q.data.dtype == vc.np.dtype(dtype or "float64"), "type is kept")
    vc.prove(q.metadata.dtype == vc.np.dtype(dtype or "float64"), "type is kept in the metadata")
    t.check(vc, dims, q.origin, q.extent, q.data.shape)
    vc.prove_shape(q.view[:].shape, [t.extent(d) for d in dims], "compute domain of the quantity")
    if storage is not None:
        for o in storage.origins[-1:]:
            if o is not None:
                vc.prove_shape(o, [t.origin(d) for d in dims], "the storage is given the origin")
    if kind != "empty":
        for p in vc.indices(q.data.shape):
            vc.prove_eq(vc.at(q.data, p), 0 if kind == "zeros" else 1, "filled everywhere, halo included")


def independent(vc):
    """allocations do not share memory"""
    t = Tile(vc, "sizer")
    F = vc.mod("initialization.allocator").QuantityFactory(t.sizer, vc.np)
    kinds = [F.zeros, F.ones, F.empty]
    a = vc.choice("first", kinds)((Y, X), "m")
    b = vc.choice("second", kinds)((Y, X), "m")
    before = snapshot(vc, b.data)
    a.data[...] = vc.array("new", a.data.shape)
    for p in vc.indices(b.data.shape):
        vc.prove_eq(vc.at(b.data, p), vc.at(before, p), "another allocation is untouched")


def halo_fits(vc):
    """boundary views of the full halo width exist on every side of an allocated quantity"""
    t = Tile(vc, "tile_params")
    F = vc.mod("initialization.allocator").QuantityFactory(t.sizer, vc.np)
    vc.assume(t.halo >= 1)
    dims = vc.choice("dims", [(Y, X), (Z, YI, X), (XI, YI)])
    q = F.zeros(dims, "m")
    bt = vc.choice("boundary", list(ALL))
    b = vc.mod("boundary").SimpleBoundary(from_rank=0, to_rank=1, n_clockwise_rotations=0, boundary_type=bt)
    v = b.recv_view(q, n_points=t.halo)
    for n, d in enumerate(dims):
        s = STEP[bt][0] if d in YD else STEP[bt][1] if d in XD else 0
        vc.prove(v.shape[n] == (t.halo if s else t.extent(d)), "the halo has its full width")


def sizer_unchanged(vc):
    """asking for geometry does not change later answers"""
    t = Tile(vc, "sizer")
    s = t.sizer
    for d in [(X, Y), (XI, "yland_interface"), (ZI,)]:
        s.get_shape(d), s.get_extent(d), s.get_origin(d), s.dim_extents
    given = t.extra.copy()
    for d in [(X, Y), (XI, "yland_interface"), (ZI, YI)]:
        t.check(vc, d, s.get_origin(d), s.get_extent(d), s.get_shape(d))
    vc.prove(set(given) == {"yland_interface", "soil"} and s.extra_dim_lengths == given, "extra dimensions unchanged")
    s.dim_extents[X] = -1
    vc.prove(s.get_extent((X,))[0] == t.mx, "reported lengths are a copy")


def other_sizers(vc, changed):
    """what sizers of another geometry were asked before does not matter"""
    t = Tile(vc, "sizer")
    other = dict(nx=t.mx, ny=t.my, nz=t.nz, n_halo=t.halo)
    extra = dict(t.extra)
    if changed == "extra":
        extra = {k: n + 1 for k, n in extra.items()}
    else:
        other[changed] = other[changed] + 1
    cls = vc.mod("initialization.sizer").SubtileGridSizer
    before = cls(extra_dim_lengths=extra, **other)
    dims = vc.choice("dims", [(Y, X), (Z, YI, XI), ("soil", "yland_interface", Y, XI), ("soil", "yland_interface")])
    F = vc.mod("initialization.allocator").QuantityFactory
    before.get_shape(dims), before.get_extent(dims), before.get_origin(dims), before.dim_extents
    F(before, vc.np).zeros(dims, "m")
    t.check(vc, dims, t.sizer.get_origin(dims), t.sizer.get_extent(dims), t.sizer.get_shape(dims))
    q = F(t.sizer, vc.np).zeros(dims, "m")
    t.check(vc, dims, q.origin, q.extent, q.data.shape)
