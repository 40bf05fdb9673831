"""C26: a quantity describes the very array it was given."""
import warnings

from .ghost_files import *

DIMS = [(), (X,), (Y, X), (Z, YI, XI), ("a", "b", X), (TILE, Z, Y, XI)]
GIVEN = ["nothing", "origin", "extent", "both"]
FORMS = ["tuple", "list"]
TRUSTED = ["ghost xarray.DataArray (contracts/ghost_files.py): holds the array, dimensions and attributes it is given"]


def units(tier):
    u = []
    for n, d in enumerate(DIMS):
        for g in GIVEN:
            u.append(("construct", dict(dims=d, given=g, dtype=["float64", "float32", "int32"][n % 3])))
        u += [("data_array", dict(dims=d, given=g)) for g in ("nothing", "both")]
        u += [("from_data_array", dict(dims=d, given=g)) for g in GIVEN]
        u += [("values", dict(dims=d)), ("described_once", dict(dims=d))]
    u += [("wrong_lengths", dict(dims=d, what=w, by=b)) for d in DIMS for w in ("dims", "origin", "extent")
          for b in (-2, -1, 1, 2) if len(d) + b >= 0]
    u += [("plain_numbers", dict(kind=k)) for k in ("int", "float", "list", "nested")]
    u += [("integers", dict(kind=k)) for k in ("float", "text", "numpy")]
    u += [("backend", {}), ("other_arrays", {}), ("no_units", {})]
    return u


class Case:
    """an array of any size and what a user may say of it"""

    def __init__(self, vc, dims, given, dtype="float64", form=None, lo=0):
        self.dims = dims
        box = Box(vc, dims, lo=lo)
        self.shape = box.shape
        kw, self.origin = {}, tuple(0 for _ in dims)
        self.extent = box.shape
        form = form or (lambda x: x)
        if given in ("origin", "both"):
            self.origin, self.extent = box.origin, tuple(e + b for e, b in zip(box.extent, box.after))
            kw["origin"] = form(self.origin)
        if given == "extent":
            self.extent = box.extent
        if given == "both":
            self.extent = box.extent
        if given in ("extent", "both"):
            kw["extent"] = form(self.extent)
        self.kw = kw
        self.data = vc.array("data", box.shape, dtype)
        self.before = snapshot(vc, self.data)

    def check(self, vc, q, unit, label=""):
        vc.prove(q.dims == self.dims and type(q.dims) is tuple, "dimensions are those given" + label)
        vc.prove(q.units == unit, "units are those given" + label)
        vc.prove_shape(q.origin, self.origin, "the compute domain starts where it was said to, else at the first point" + label)
        vc.prove_shape(q.extent, self.extent, "the compute domain has the length it was said to, else up to the end" + label)
        vc.prove(type(q.origin) is tuple and type(q.extent) is tuple, "origin and extent are tuples" + label)
        vc.prove(q.attrs == {"units": unit}, "attributes hold the units" + label)
        vc.prove_shape(q.view.origin, self.origin, "the view starts at the origin" + label)
        vc.prove_shape(q.view.extent, self.extent, "the view has the extent" + label)
        m = q.metadata
        vc.prove(m.dims == self.dims and m.units == unit, "metadata: dimensions and units" + label)
        vc.prove_shape(m.origin, self.origin, "metadata: origin" + label)
        vc.prove_shape(m.extent, self.extent, "metadata: extent" + label)
        vc.prove(m.dtype == self.data.dtype, "metadata: type" + label)
        vc.prove(q.np is m.np, "one numerical module" + label)
        vc.prove(set(m.dim_lengths) == set(self.dims), "metadata: a length for every dimension" + label)
        for d, e in zip(self.dims, self.extent):
            vc.prove(m.dim_lengths[d] == e, "metadata: length of a dimension" + label)

    def compute(self, p):
        return tuple(o + i for o, i in zip(self.origin, p))

    def untouched(self, vc, label):
        for p in vc.indices(self.shape):
            vc.prove_eq(vc.at(self.data, p), vc.at(self.before, p), label)


def module(vc):
    import numpy

    return vc.np if vc.symbolic else numpy


def construct(vc, dims, given, dtype):
    Q = vc.mod("quantity").Quantity
    form = vc.choice("form", [tuple, list])
    c = Case(vc, dims, given, dtype, form)
    names = form(dims)
    q = Q(c.data, names, "kg m^-2", **c.kw)
    c.check(vc, q, "kg m^-2")
    vc.prove(q.data is c.data, "the data is the given array, not a copy")
    vc.prove(q.np is module(vc), "the numerical module is the one of the array")
    vc.prove(q.gt4py_backend is None, "no backend")
    c.untouched(vc, "the given array is not modified")
    # lists handed in stay the caller's
    if form is list:
        for given_list in [names] + list(c.kw.values()):
            given_list[:] = [77 for _ in given_list]
        c.check(vc, q, "kg m^-2", " (also when the caller reuses its lists)")
    # a change of either is a change of both
    new = vc.array("new", c.shape, dtype)
    c.data[...] = new
    for p in vc.indices(c.extent):
        vc.prove_eq(vc.at(q.view[:], p), vc.at(new, c.compute(p)), "a change of the array is a change of the quantity")


def described_once(vc, dims):
    """what is handed out can be changed without changing the quantity"""
    Q = vc.mod("quantity").Quantity
    c = Case(vc, dims, "both")
    q = Q(c.data, dims, "m", **c.kw)
    other = Q(c.data, dims, "s", **c.kw)
    q.attrs["units"] = "K"
    q.attrs["other"] = 1
    lengths = q.metadata.dim_lengths
    for d in dims:
        lengths[d] = -1
    c.check(vc, q, "m", " (after changing what it handed out)")
    c.check(vc, other, "s", " (of another quantity)")


def data_array(vc, dims, given):
    with files(vc):
        Q = vc.mod("quantity").Quantity
        c = Case(vc, dims, given)
        q = Q(c.data, dims, "degK", **c.kw)
        a = q.data_array
        vc.prove(tuple(a.dims) == dims, "data array: dimensions")
        vc.prove(dict(a.attrs) == q.attrs, "data array: attributes")
        vc.prove_shape(a.shape, c.extent, "data array: the compute domain")
        for p in vc.indices(c.extent):
            vc.prove_eq(vc.at(a.values, p), vc.at(c.before, c.compute(p)), "data array: the compute domain's values")
        c.untouched(vc, "making a data array changes nothing")
        # a window, not a copy
        new = vc.array("new", c.shape)
        c.data[...] = new
        for p in vc.indices(c.extent):
            vc.prove_eq(vc.at(a.values, p), vc.at(new, c.compute(p)), "data array: a window onto the quantity")
        a.attrs["units"] = "K"
        vc.prove(q.units == "degK" and q.attrs == {"units": "degK"}, "attributes of the data array are its own")
        # and back
        b = Q.from_data_array(q.data_array)
        vc.prove(b.dims == dims and b.units == "degK", "back from the data array: description")
        vc.prove_shape(b.extent, c.extent, "back from the data array: extent")
        vc.prove_shape(b.origin, [0 for _ in dims], "back from the data array: origin")
        for p in vc.indices(c.extent):
            vc.prove_eq(vc.at(b.view[:], p), vc.at(q.view[:], p), "back from the data array: values")


def xarray_of(vc, data, dims, attrs):
    if vc.symbolic:
        return DataArray(vc, data, dims, attrs)
    import xarray

    return xarray.DataArray(data, dims=dims, attrs=attrs)


def from_data_array(vc, dims, given):
    with files(vc):
        Q = vc.mod("quantity").Quantity
        form = vc.choice("form", [tuple, list])
        c = Case(vc, dims, given, "float32", form)
        attrs = {"units": "m s-1", "long_name": "wind"}
        a = xarray_of(vc, c.data, dims, attrs)
        q = Q.from_data_array(a, **c.kw)
        c.check(vc, q, "m s-1")
        vc.prove_shape(q.data.shape, c.shape, "from a data array: all of its points")
        for p in vc.indices(c.shape):
            vc.prove_eq(vc.at(q.data, p), vc.at(c.before, p), "from a data array: its values")
        vc.prove(dict(a.attrs) == attrs, "the data array keeps its attributes")
        c.untouched(vc, "the data array is not modified")
        new = vc.array("new", c.shape, "float32")
        q.data[...] = new
        for p in vc.indices(c.shape):
            vc.prove_eq(vc.at(c.data, p), vc.at(new, p), "from a data array: its own memory")


def no_units(vc):
    with files(vc):
        Q = vc.mod("quantity").Quantity
        dims = vc.choice("dims", DIMS)
        c = Case(vc, dims, "nothing")
        attrs = vc.choice("attrs", [{}, {"long_name": "wind"}, {"Units": "m"}])
        a = xarray_of(vc, c.data, dims, attrs)
        vc.expect_raises(ValueError, lambda: Q.from_data_array(a), "a data array without units is refused")
        c.untouched(vc, "a refused data array is not modified")
        # no units is not the same as dimensionless
        q = Q.from_data_array(xarray_of(vc, c.data, dims, {"units": ""}))
        c.check(vc, q, "", " (dimensionless)")


def values(vc, dims):
    Q = vc.mod("quantity").Quantity
    c = Case(vc, dims, "both", lo=1)
    q = Q(c.data, dims, "m", **c.kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v = q.values
    vc.prove_shape(v.shape, c.extent, "values: the compute domain")
    for p in vc.indices(c.extent):
        vc.prove_eq(vc.at(v, p), vc.at(c.before, c.compute(p)), "values: the compute domain's values")
    vc.prove(vc.raises(ValueError, lambda: v.__setitem__(Ellipsis, 0.0)), "values can not be written")
    c.untouched(vc, "a refused write changes nothing")
    new = vc.array("new", c.shape)
    try:
        q.data[...] = new
        q.view[:] = vc.array("inner", c.extent)
    except ValueError:
        vc.fail("the quantity can still be written after looking at its values")


def wrong_lengths(vc, dims, what, by):
    """any number of names, origins or extents that is not the number of axes is refused"""
    Q = vc.mod("quantity").Quantity
    c = Case(vc, dims, "both")
    k = len(dims) + by
    kw = dict(c.kw)
    also = vc.choice("also", ["nothing", "both"])
    if also == "nothing":
        kw = {}
    names = list(dims)
    if what == "dims":
        names = (names + ["more", "and more"])[:k]
    else:
        kw[what] = (list(getattr(c, what)) + [1, 1])[:k]
    vc.expect_raises(ValueError, lambda: Q(c.data, names, "m", **kw), "a wrong number of %s is refused" % what)
    c.untouched(vc, "a refused array is not modified")


def plain_numbers(vc, kind):
    Q = vc.mod("quantity").Quantity
    import numpy

    # numbers of Python's own types
    if kind == "int":
        given, dims, content = 5, [], {(): 5}
    elif kind == "float":
        given, dims, content = -2.5, [], {(): -2.5}
    elif kind == "list":
        given, dims, content = [1.5, 2.0, -3.25], ["a"], {(0,): 1.5, (1,): 2.0, (2,): -3.25}
    else:
        given, dims = [[1, 2, 3], [4, 5, 6]], [Y, X]
        content = {(j, i): 1 + i + 3 * j for j in range(2) for i in range(3)}
    q = Q(given, dims, "1")
    shape = numpy.asarray(given).shape
    vc.prove_shape(q.data.shape, shape, "numbers become an array")
    vc.prove_shape(q.extent, shape, "all of the numbers are in the compute domain")
    vc.prove_shape(q.origin, [0] * len(shape), "from the first")
    for p, x in content.items():
        vc.prove_eq(vc.at(q.data, p), x, "the numbers are kept")
    vc.prove(numpy.dtype(q.data.dtype) == numpy.asarray(given).dtype, "the kind of number is kept")
    vc.prove(q.dims == tuple(dims) and q.units == "1", "the description is kept")


def integers(vc, kind):
    """origin and extent are integers, or refused"""
    Q = vc.mod("quantity").Quantity
    import numpy

    data = vc.array("data", (6, 5))
    if kind == "text":
        for o, e in ((("a", 0), (1, 1)), ((0, 0), (1, "x")), (("", 0), None)):
            vc.expect_raises(TypeError, lambda: Q(data, [Y, X], "m", origin=o, extent=e), "text is no origin or extent")
        return
    of = (lambda x: numpy.int64(x)) if kind == "numpy" else float
    q = Q(data, [Y, X], "m", origin=[of(2), of(1)], extent=(of(3), of(4)))
    vc.prove(q.origin == (2, 1) and q.extent == (3, 4), "the numbers are kept")
    vc.prove(all(type(x) is int for x in q.origin + q.extent), "origin and extent are Python integers")
    vc.prove_shape(q.view[:].shape, (3, 4), "the compute domain")


def backend(vc):
    Q = vc.mod("quantity").Quantity
    c = Case(vc, (Y, X), "both")
    q = Q(c.data, (Y, X), "m", **c.kw)
    vc.expect_raises(TypeError, lambda: q.storage, "without a backend there is no storage")
    vc.prove(q.data is c.data, "asking for the storage changes nothing")


def other_arrays(vc):
    """data of a type with no numerical module is noticed when the module is asked for"""
    Q = vc.mod("quantity").Quantity

    class Foreign:
        def __init__(self, a):
            self.shape, self.dtype = a.shape, a.dtype

    c = Case(vc, (Y, X), "both")
    f = Foreign(c.data)
    q = Q(f, (Y, X), "m", **c.kw)
    vc.prove(q.data is f, "the data is the given array, not a copy")
    vc.prove(q.metadata.data_type is Foreign, "metadata: type of array")
    vc.expect_raises(TypeError, lambda: q.np, "an unknown kind of array has no numerical module")
