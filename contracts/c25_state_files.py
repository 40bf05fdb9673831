"""C25: reading a state file gives back the state that was written.

The number of names is bounded (at most 3, or 8); sizes, halos and values are universal.  Files
and xarray are ghosts (contracts/ghost_files.py) in the proof and real in the replays.
"""
import cftime

from .c12_scatter import quantity, prove_unchanged
from .ghost_files import *

LEVEL = "exploration"
TRUSTED = ["ghost fsspec and xarray (contracts/ghost_files.py): files give back the Dataset written to them, times are encoded exactly"]
ASSUMPTIONS = ["names of quantities are not names of dimensions", "quantities agree in the lengths of their common dimensions",
               "at most 3, or 8, quantities in a state"]

TIMES = [
    cftime.DatetimeJulian(2016, 8, 1, 3, 4, 5), cftime.DatetimeNoLeap(2015, 2, 28, 23, 59, 59),
    cftime.Datetime360Day(2016, 2, 30), cftime.DatetimeGregorian(1900, 1, 1, 0, 0, 0, 5), cftime.DatetimeJulian(1, 1, 1, 6),
    cftime.DatetimeAllLeap(2015, 2, 29), cftime.DatetimeProlepticGregorian(1500, 12, 31),
]
QUANTITIES = {
    "plain": ("air_temperature", (Z, Y, X), "float64", "degK"),
    "single": ("pressure", (Y, X), "float32", "Pa"),
    "counts": ("land_sea_mask", (Y, XI), "int32", ""),
    "elapsed": ("time_since_rain", (Y, X), "float64", "seconds"),
    "days": ("age", (YI,), "float32", "days"),
    "since": ("onset", (Y, X), "float64", "days since 2000-01-01"),
    "scalar": ("timestep", (), "float64", "s"),
    "other": ("time_of_day", ("land", Z), "float64", "m s-1"),
}


def units(tier):
    u = []
    for n, k in enumerate(QUANTITIES):
        u.append(("roundtrip", dict(which=[k], time=n % len(TIMES), last=n % 2, remote=n % 3 == 2)))
    for n, w in enumerate([["plain", "single", "counts"], ["elapsed", "plain"], ["scalar", "other", "days"], ["since", "plain"], [], list(QUANTITIES), list(QUANTITIES)[::-1]]):
        u.append(("roundtrip", dict(which=w, time=(n + 3) % len(TIMES), last=n % 2, remote=n % 2 == 1)))
    u += [("overwritten", dict(time=t)) for t in range(2)] + [("two_files", {})]
    u += [("read_between", dict(which=w, time=t)) for w, t in ((["plain"], 0), (["single", "since"], 4))]
    u += [("needs_time", dict(which=w)) for w in (["plain"], [])]
    u += [("not_a_time", dict(what=w)) for w in ("number", "several", "several_numbers")]
    return u


class State:
    def __init__(self, vc, which, time, last=False, tag="", sizes=None):
        self.sizes = {} if sizes is None else sizes
        self.state, self.before, self.pos = {}, {}, {}
        if time is not None and not last:
            self.state["time"] = TIMES[time]
        for k in which:
            name, dims, dtype, unit = QUANTITIES[k]
            extent = tuple(self.sizes.setdefault(d, vc.int("n%s_%s" % (tag, d), 1, small=3)) for d in dims)
            q = quantity(vc, tag + name, dims, extent, dtype, units=unit)
            self.state[name], self.before[name] = q, snapshot(vc, q.data)
            self.pos[name] = (dims, extent, dtype, unit)
        if time is not None and last:
            self.state["time"] = TIMES[time]
        self.time = time
        self.names = list(self.state)

    def check(self, vc, got, label=""):
        vc.prove(set(got) == set(self.names), "the same names are read" + label)
        if "time" in got:
            t = got["time"]
            vc.prove(type(t) is type(TIMES[self.time]) and t == TIMES[self.time] and t.calendar == TIMES[self.time].calendar,
                     "the same time and calendar are read" + label)
        for name, (dims, extent, dtype, unit) in self.pos.items():
            q, sent = got[name], self.state[name]
            vc.prove(tuple(q.dims) == dims, "the same dimensions are read" + label)
            vc.prove(q.units == unit, "the same units are read" + label)
            vc.prove_shape(q.extent, extent, "the compute domain is read" + label)
            vc.prove(q.data.dtype == np_dtype(dtype), "the same type is read" + label)
            for p in vc.indices(extent):
                vc.prove_eq(vc.at(q.data, tuple(o + i for o, i in zip(q.origin, p))),
                            vc.at(self.before[name], tuple(o + i for o, i in zip(sent.origin, p))),
                            "the same compute-domain values are read" + label)

    def unchanged(self, vc):
        vc.prove(list(self.state) == self.names, "the written state keeps its entries")
        for name, before in self.before.items():
            prove_unchanged(vc, self.state[name].data, before, "the written state is not modified")


def roundtrip(vc, which, time, last, remote):
    with files(vc, remote) as f:
        io = vc.mod("")
        s = State(vc, which, time, last)
        io.write_state(s.state, f.path("state.nc"))
        s.unchanged(vc)
        s.check(vc, io.read_state(f.path("state.nc")))
        # what was written later to the state does not change the file
        for q in s.state.values():
            if hasattr(q, "data"):
                q.data[...] = 0
        again = io.read_state(f.path("state.nc"))
        s.check(vc, again, " (again)")


def overwritten(vc, time):
    with files(vc) as f:
        io = vc.mod("")
        old = State(vc, ["counts", "other"], 3, tag="old")
        io.write_state(old.state, f.path("state.nc"))
        s = State(vc, ["plain"], time)
        io.write_state(s.state, f.path("state.nc"))
        s.check(vc, io.read_state(f.path("state.nc")))


def read_between(vc, which, time):
    """the same names and sizes are written again after the file has been read"""
    with files(vc) as f:
        io = vc.mod("")
        sizes = {}
        for k, t in enumerate((3, time, time + 1)):
            s = State(vc, which, t, tag="write%d" % k, sizes=sizes)
            io.write_state(s.state, f.path("state.nc"))
            s.check(vc, io.read_state(f.path("state.nc")), ", whatever was read before")


def two_files(vc):
    with files(vc) as f:
        io = vc.mod("")
        a, b = State(vc, ["plain"], 0, tag="a"), State(vc, ["plain", "single"], 1, tag="b")
        io.write_state(a.state, f.path("a.nc"))
        io.write_state(b.state, f.path("b.nc"))
        got_a, got_b = io.read_state(f.path("a.nc")), io.read_state(f.path("b.nc"))
        a.check(vc, got_a)
        b.check(vc, got_b)


def needs_time(vc, which):
    with files(vc) as f:
        io = vc.mod("")
        old = State(vc, ["counts"], 3, tag="old")
        io.write_state(old.state, f.path("state.nc"))
        s = State(vc, which, None)
        for name in ("state.nc", "new.nc"):
            vc.expect_raises(ValueError, lambda: io.write_state(s.state, f.path(name)), "a state without a time is refused")
        old.check(vc, io.read_state(f.path("state.nc")), ", where a refused state would have gone")


def not_a_time(vc, what):
    """bounded: files, not written by write_state, whose time is not one time (real xarray)"""
    import numpy
    import xarray

    n = vc.int("n", 2, small=3)
    number = numpy.array([vc.int("t", 0, 1000) + k for k in range(n)], dtype="float64")
    with tempfile.TemporaryDirectory() as d:
        name = real_os.path.join(d, "s.nc")
        attrs = dict(units="seconds since 2016-08-01", calendar="julian")
        if what == "number":
            time = xarray.DataArray(number[0], attrs=dict(units="m") if vc.bool("units") else {})
        else:
            time = xarray.DataArray(number, dims=["n"], attrs=attrs if what == "several" else {})
        data = xarray.DataArray(number, dims=["z"], attrs=dict(units="K"))
        xarray.Dataset({"time": time, "air": data}).to_netcdf(name)
        vc.expect_raises(ValueError, lambda: vc.mod("").read_state(name), "a file whose time is not one time is refused")


not_a_time.mode = "bounded"
not_a_time.runs = 10


def known_finding_present(line):
    """a quantity named like one of its dimensions is a coordinate in the file and not read"""
    import numpy

    from pyvc.runner import fresh_package

    fresh_package()
    import fv3gfs.util as u

    with tempfile.TemporaryDirectory() as d:
        name = real_os.path.join(d, "s.nc")
        u.write_state({"time": TIMES[0], "x": u.Quantity(numpy.zeros(3), dims=["x"], units="m")}, name)
        return "x" not in u.read_state(name)
