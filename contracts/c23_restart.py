"""C23: restart files are loaded into the right variables on every rank.

Load contracts cover every entry of the table of restart variables one at a time, next to
unknown variables; open_restart is proved for files with at most 3 variables, and with 20.  Sizes, values,
layouts, ranks and dates are universal.  Files, xarray and the calendar types are ghosts in the
proof (contracts/ghost_files.py, ghost_collective.py) and real in the replays.
"""
import types

from .c12_scatter import Domain, compute, prove_outside_unchanged, prove_unchanged, quantity, whole_index
from .ghost_collective import Collective, CollectiveComm
from .ghost_files import *

LEVEL = "exploration"
TRUSTED = ["ghost fsspec and xarray (contracts/ghost_files.py), ghost bcast/Scatter/Split, ghost calendar types"]
ASSUMPTIONS = ["restart files have a Time dimension with a coordinate", "variables' dimensions in the file are in the documented order",
               "units in the files do not look like times", "at most 3 variables per set of files (and 20 in four cases)",
               "labels and directory names are only concatenated (samples stand for all)"]
REQUIRED = ["fv_core.res", "fv_srf_wnd.res", "fv_tracer.res"]
OPTIONAL = ["sfc_data", "phy_data"]
LABELS = ["", None, "20160801.001500", "a"]
CALENDARS = {1: "Datetime360Day", 2: "DatetimeJulian", 3: "DatetimeGregorian", 4: "DatetimeNoLeap"}
TRACERS = {
    "specific_humidity": {"dims": (Z, Y, X), "restart_name": "sphum", "units": "kg/kg"},
    "cloud_amount": {"dims": [Z, Y, XI], "restart_name": "cld_amt", "units": ""},
    # the built-in table has precedence
    "surface_pressure": {"dims": [Z], "restart_name": "ps", "units": "not the documented ones"},
    "warmth": {"dims": [Y, X, Z], "restart_name": "T", "units": "not the documented ones"},
}


# the documented table, as published (restart name, dimensions, units): an oracle of its own
def documented():
    out = {}
    for line in open(real_os.path.join(real_os.path.dirname(__file__), "restart_table.txt")):
        name, restart, dims, unit = line.rstrip("\n").split("|")
        out[name] = (restart, tuple(dims.split()), unit)
    return out


def by_restart_name():
    """variables with one meaning: several names share some fluxes' restart name"""
    out = {}
    for name, (restart, dims, unit) in documented().items():
        out.setdefault(restart, []).append((name, dims, unit))
    return out


def units(tier):
    u = [("table_is_documented", {})]
    for n, restart in enumerate(sorted(by_restart_name())):
        u.append(("load", dict(restart=restart, only=(None, "with", "without")[n % 3])))
    for restart in ("T", "u", "sncovr"):
        for only in (None, "with", "without", "none"):
            u.append(("load", dict(restart=restart, only=only)))
    for n, restart in enumerate(("sphum", "cld_amt")):
        u.append(("load", dict(restart=restart, only=(None, "with")[n], tracers=True)))
    u.append(("load", dict(restart="ps", only=None, tracers=True)))
    u.append(("load", dict(restart="sphum", only=None, tracers=False)))
    for label in range(len(LABELS)):
        for remote in (False, True):
            u.append(("filenames", dict(label=label, remote=remote)))
    u += [("date", dict(calendar=c)) for c in CALENDARS] + [("date", dict(calendar=7))]
    u.append(("tile_communicators", {}))
    for role in ("root", "client"):
        for given in (False, True):
            for n, (only, coupler, present) in enumerate([(None, True, 2), (None, False, 1), ("some", True, 2), ("time", True, 0), ("all", True, 1), ("notime", True, 2)]):
                u.append(("restart", dict(role=role, given=given, only=only, coupler=coupler, present=present, label=n % len(LABELS), remote=n % 2 == 1)))
    for role in ("root", "client"):
        for only, given in ((None, False), ("all", True)):
            u.append(("restart", dict(role=role, given=given, only=only, coupler=True, present=1, label=0, remote=False, tracers=False)))
    for n, role in enumerate(("root", "client")):
        for given in (False, True):
            u.append(("restart", dict(role=role, given=given, only=(None, "all")[given], coupler=True, present=3, label=2, remote=False, more=1 if given else 3 + n)))
    return u


def table_is_documented(vc):
    """the table in the code is the published one"""
    got = vc.mod("_properties").RESTART_PROPERTIES
    want = documented()
    vc.prove(set(got) >= set(want), "the documented restart variables are known")
    for name in want:
        p = got[name]
        vc.prove(p["restart_name"] == want[name][0] and tuple(p["dims"]) == want[name][1] and p["units"] == want[name][2],
                 "%s: restart name, dimensions and units are the documented ones" % name)


def file_dims(dims):
    """names of dimensions in FMS restart files"""
    return tuple({"x": "xaxis_1", "y": "yaxis_2", "z": "zaxis_1", XI: "xaxis_2", YI: "yaxis_1"}.get(d if d in (XI, YI) else d[0]) for d in dims)


def stored(vc, name, dims, extent, dtype="float64", attrs=None, n_times=1):
    """a variable of a restart file: an extra leading Time dimension"""
    values = vc.array("F_" + name, (n_times,) + tuple(extent), dtype)
    return Variable(("Time",) + file_dims(dims), values, attrs or {})


def time_axis(vc, n):
    return Variable(("Time",), vc.array("Time", (n,), "float64"), {"units": "time level"})


def load(vc, restart, only, tracers=None):
    """one known variable, next to others, in one file"""
    with files(vc) as f:
        L = vc.mod("_legacy_restart")
        known = by_restart_name()
        if tracers and restart in [p["restart_name"] for p in TRACERS.values()] and restart not in known:
            [(name, p)] = [(k, v) for k, v in TRACERS.items() if v["restart_name"] == restart]
            names, dims, unit = {name}, tuple(p["dims"]), p["units"]
        elif restart not in known:
            names, dims, unit = set(), (Z, Y, X), ""
        else:
            names, dims, unit = {n for n, _, _ in known[restart]}, known[restart][0][1], known[restart][0][2]
        extent = tuple(vc.int("n_%s%d" % (d, k), 1, small=3) for k, d in enumerate(dims))
        nt = vc.int("nt", 1, small=3)
        path = f.path("file.nc")
        other = [d for d in (Z, Y, X) if d not in dims]
        var = stored(vc, restart, dims, extent, "float32" if restart in ("u", "ps") else "float64", {"units": "none", "long_name": "text"}, nt)
        content = {
            restart: var,
            "not_known": Variable(("Time", "other_1"), vc.array("N", (nt, 2), "float64"), {"long_name": "text"}),
            "with_units": Variable(("Time", "other_1"), vc.array("U", (nt, 2), "float64"), {"units": "kg"}),
            "Time": time_axis(vc, nt),
        }
        if restart not in known and not names:
            # a variable that is not known and has no units is left out
            var.attrs.pop("units")
        f.put(path, content)
        props = vc.mod("_properties").RESTART_PROPERTIES
        if tracers is not None:
            props = {**(TRACERS if tracers else {}), **props}
        only_names = {None: None, "with": sorted(names) + ["another"], "without": ["another", "air_pressure_of_mars"], "none": []}[only]
        with vc.mod("filesystem").open(path, "rb") as handle:
            state = L.load_partial_state_from_restart_file(handle, props, only_names=only_names)
        # (the file is closed here)
        got = set(state) - {"with_units"}
        if only is None:
            vc.prove("with_units" in state and state["with_units"].units == "kg", "variables with units of their own keep their name")
        else:
            vc.prove("with_units" not in state, "names that are not asked for are left out")
        vc.prove("not_known" not in state, "unknown variables without units are left out")
        vc.prove("Time" not in state, "the time axis is no variable")
        if only in ("without", "none") or not names:
            vc.prove(not got, "names that are not asked for, or not known, are left out")
            return
        vc.prove(len(got) == 1 and got <= names, "the variable is loaded under its standard name")
        q = state[got.pop()]
        vc.prove(tuple(q.dims) == dims, "the dimensions have the documented names")
        vc.prove(q.units == unit, "the units are the documented ones")
        vc.prove_shape(q.extent, extent, "the whole variable is loaded")
        vc.prove(q.data.dtype == var.values.dtype, "the type is kept")
        for p in vc.indices(extent):
            vc.prove_eq(vc.at(q.data, compute(q, p)), vc.at(var.values, (0,) + p), "the values are those in the file")


def expected_names(f, label, tile, present):
    prefix = label + "." if label else ""
    return [f.path("%s%s.tile%d.nc" % (prefix, n, tile + 1)) for n in REQUIRED + [n for k, n in enumerate(OPTIONAL) if present >> k & 1]]


def filenames(vc, label, remote):
    with files(vc, remote) as f:
        L, text = vc.mod("_legacy_restart"), LABELS[label]
        tile, present, required = vc.choice("tile", list(range(6))), vc.choice("present", [0, 1, 2, 3]), vc.bool("required")
        prefix = text + "." if text else ""
        for k, n in enumerate(OPTIONAL):
            if present >> k & 1:
                f.put(f.path("%s%s.tile%d.nc" % (prefix, n, tile + 1)), {})
            else:
                # of another tile, or with another label
                f.put(f.path("%s%s.tile%d.nc" % (prefix, n, (tile + 1) % 6 + 1)), {})
                f.put(f.path("other.%s.tile%d.nc" % (n, tile + 1)), {})
                if prefix:
                    f.put(f.path("%s.tile%d.nc" % (n, tile + 1)), {})
        if required:
            for n in REQUIRED:
                f.put(f.path("%s%s.tile%d.nc" % (prefix, n, tile + 1)), {})
        got = list(L.restart_filenames(f.dirname, tile, text))
        want = expected_names(f, text, tile, present)
        vc.prove(len(got) == len(want) and set(got) == set(want),
                 "the files of the tile and label: all required ones, and the optional ones that exist")
        vc.prove(L.get_coupler_res_filename(f.dirname, text) == f.path(prefix + "coupler.res"), "the coupler file of the label")


class Calendars:
    """ghost calendar types: a date is its type and its numbers"""

    def __init__(self, vc):
        import cftime

        m = types.ModuleType("cftime")
        m.__dict__.update({k: v for k, v in cftime.__dict__.items() if not k.startswith("__")})

        class Date:
            def __init__(self, *numbers):
                self.numbers = numbers

        self.types = {}
        for n in CALENDARS.values():
            setattr(m, n, type(n, (Date,), {}))
        vc.stub("cftime", m)
        self.m = m


def coupler_lines(vc, calendar, date):
    words = "Model start time: year, month, day, hour, minute, second".split()
    start = [Token(vc.int("start%d" % k, 1, 20)) for k in range(6)]
    return [
        [Token(calendar), "(Calendar:", "no_calendar=0,", "thirty_day_months=1,", "julian=2,", "gregorian=3,", "noleap=4)"],
        start + words, [Token(d) for d in date] + ["Current", "model", "time:"] + words[3:],
    ]


def any_date(vc):
    limits = [(1, 3000), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59)]
    return [vc.int(n, lo, hi) for n, (lo, hi) in zip(("year", "month", "day", "hour", "minute", "second"), limits)]


def is_date(vc, got, calendar, date):
    if vc.symbolic:
        vc.prove(type(got).__name__ == CALENDARS[calendar], "the date has the file's calendar")
        vc.prove(len(got.numbers) == 6, "the date has year to second")
        for a, b in zip(got.numbers, date):
            vc.prove_eq(a, b, "the current model time is read")
    else:
        import cftime

        vc.prove(type(got) is getattr(cftime, CALENDARS[calendar]), "the date has the file's calendar")
        vc.prove(got == getattr(cftime, CALENDARS[calendar])(*date), "the current model time is read")


def date(vc, calendar):
    with files(vc) as f:
        if vc.symbolic:
            Calendars(vc)
        d = any_date(vc)
        f.put_text(f.path("coupler.res"), coupler_lines(vc, calendar, d))
        with vc.mod("filesystem").open(f.path("coupler.res"), "r") as handle:
            read = lambda: vc.mod("io").get_current_date_from_coupler_res(handle)
            if calendar not in CALENDARS:
                vc.expect_raises(Exception, read, "an unknown calendar is refused")
            else:
                is_date(vc, read(), calendar, d)


class SplitComm:
    """a rank of the whole communicator; a split gives communicators of equal color, by key"""

    def __init__(self, vc, rank, total, make=None):
        self.vc, self.rank, self.total, self.make, self.splits = vc, rank, total, make, []

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.total

    def Split(self, color=0, key=0):
        self.splits.append((color, key))
        if self.make is None:
            self.vc.unsupported("communication between tiles")
        return self.make(color, key)


def tile_communicators(vc):
    """two arbitrary ranks share a tile communicator just if they are on one tile, in rank order"""
    ly, lx = vc.int("ly", 1, small=3), vc.int("lx", 1, small=3)
    n = ly * lx
    r = [vc.int("r%d" % k, 0, 6 * n - 1) for k in range(2)]
    vc.assume(r[0] < r[1])
    splits = []
    for k in range(2):
        v = vc.process()
        P, C = v.mod("partitioner"), v.mod("communicator")
        where = []

        def make(color, key):
            where.append((color, key))
            return CollectiveComm(v, r[k] % n, n, Collective())

        c = C.CubedSphereCommunicator(SplitComm(v, r[k], 6 * n, make), P.CubedSpherePartitioner(P.TilePartitioner((ly, lx))))
        t = c.tile
        vc.prove(c.tile is t, "there is one tile communicator")
        vc.prove(len(where) == 1, "the communicator is split once")
        vc.prove_eq(t.rank, r[k] % n, "the tile rank")
        splits += where
    same = r[0] // n == r[1] // n
    vc.prove(vc.all([vc.implies(same, vc.eq(splits[0][0], splits[1][0])), vc.implies(vc.eq(splits[0][0], splits[1][0]), same)]),
             "ranks share a tile communicator just if they are on the same tile")
    # ranks with equal keys are ordered by rank
    vc.prove(vc.implies(same, splits[0][1] <= splits[1][1]), "ranks of a tile keep their order")


CONTENT = {
    "fv_core.res": ("T", "air_temperature", (Z, Y, X), "degK"),
    "fv_tracer.res": ("sphum", "specific_humidity", (Z, Y, X), "kg/kg"),
    "fv_srf_wnd.res": ("ps", "surface_pressure", (Y, X), "Pa"),
    "sfc_data": ("tsea", "surface_temperature", (Y, X), "degK"),
    "phy_data": ("u", "x_wind", (Z, YI, X), "m/s"),
}


def further(file, n):
    """n other known variables for each file"""
    used = {c[0] for c in CONTENT.values()}
    known = [(r, v[0][0], v[0][1], v[0][2]) for r, v in sorted(by_restart_name().items())
             if len(v) == 1 and r not in used and set(v[0][1]) <= {X, Y, Z, XI, YI} and {X, XI} & set(v[0][1])]
    return known[file::5][:n]


def restart(vc, role, given, only, coupler, present, label, remote, tracers=True, more=0):
    """one rank of an arbitrary layout, the root of its tile or another"""
    text = LABELS[label]
    prefix = text + "." if text else ""
    with files(vc, remote) as f:
        if vc.symbolic:
            Calendars(vc)
        D = Domain.__new__(Domain)
        D.vc, D.kind = vc, "tile"
        D.ly, D.lx = vc.int("ly", 1, small=3), vc.int("lx", 1, small=3)
        D.dims = (Y, X)
        cells = {d: vc.int("m_" + d, 1, small=3) for d in (Y, X, Z)}
        n = D.ly * D.lx
        tile = vc.choice("tile", list(range(6)))
        j, i = vc.int("j", 0, D.ly - 1), vc.int("i", 0, D.lx - 1)
        if role == "root":
            j = i = 0
        mine = j * D.lx + i
        if role == "client":
            vc.assume(mine > 0)
        vc.loop_mode("witness", mine)
        # the files of this tile, and others with the same names for another tile
        names, ext = {}, {}
        for k, file in enumerate(REQUIRED + [x for b, x in enumerate(OPTIONAL) if present >> b & 1]):
            rname, name, dims, unit = CONTENT[file]
            if file == "fv_srf_wnd.res" and given:
                rname = None  # a file without known variables
            content, foreign = {"Time": time_axis(vc, 1)}, {"Time": time_axis(vc, 1)}
            if rname is None:
                content["nothing"] = Variable(("Time", "other_1"), vc.array("N", (1, 2), "float64"), {})
            else:
                extent = tuple(cells[d[0]] * factor(d, D.ly, D.lx) + n_shared(d) for d in dims)
                content[rname] = stored(vc, rname, dims, extent)
                foreign[rname] = stored(vc, rname + "_foreign", dims, extent)
                for rname2, name2, dims2, unit2 in further(k, more):
                    extent2 = tuple(cells[d[0]] * factor(d, D.ly, D.lx) + n_shared(d) for d in dims2)
                    content[rname2] = stored(vc, rname2, dims2, extent2, "float32" if more % 2 and not given else "float64")
                    foreign[rname2] = stored(vc, rname2 + "_foreign", dims2, extent2)
                    names[name2] = (dims2, unit2, content[rname2].values, extent2)
                if tracers or file != "fv_tracer.res":
                    # (tracers are not known unless they are described)
                    names[name] = (dims, unit, content[rname].values, extent)
            f.put(f.path("%s%s.tile%d.nc" % (prefix, file, tile + 1)), content)
            f.put(f.path("%s%s.tile%d.nc" % (prefix, file, (tile + 1) % 6 + 1)), foreign)
            f.put(f.path("%s%s.tile%d.nc" % ("earlier.", file, tile + 1)), foreign)
        when = any_date(vc)
        if coupler:
            f.put_text(f.path(prefix + "coupler.res"), coupler_lines(vc, 2, when))
        f.put_text(f.path("earlier.coupler.res"), coupler_lines(vc, 4, any_date(vc)))
        asked = {None: None, "some": ["air_temperature", "surface_pressure", "time"], "time": ["time"], "all": sorted(names) + ["time", "x"], "notime": ["specific_humidity"]}[only]
        want = {k: v for k, v in names.items() if asked is None or k in asked}
        has_time = coupler and (asked is None or "time" in asked)
        shared, tile_rank = Collective(), [0]

        def process(v, rank, comm):
            P, C = v.mod("partitioner"), v.mod("communicator")
            whole = SplitComm(v, tile * n + rank, 6 * n, lambda color, key: comm)
            return C.CubedSphereCommunicator(whole, P.CubedSpherePartitioner(P.TilePartitioner((D.ly, D.lx))))

        def pieces(v):
            if not given:
                return None, {}, {}
            state, before = {}, {}
            for name in list(want)[:1] + ["other"]:
                dims = want[name][0] if name in want else (Y, X)
                piece = tuple(cells[d[0]] + n_shared(d) for d in dims)
                state[name] = quantity(v, "r_" + name, dims, piece, "float64", units=want[name][1] if name in want else "m")
                before[name] = snapshot(vc, state[name].data)
            return state, before, dict(state)

        def call(v, comm, rank, state):
            return v.mod("").open_restart(
                f.dirname, process(v, rank, comm), only_names=asked,
                **(dict(tracer_properties=TRACERS) if tracers else {}), **({} if label == 0 else {"label": text}), **({} if state is None else {"to_state": state}))

        root = CollectiveComm(vc, 0, n, shared, watch=mine)
        state, before, own = pieces(vc) if role == "root" else (None, {}, {})
        got = call(vc, root, 0, state)
        if role == "client":
            v = vc.process()
            state, before, own = pieces(v)
            comm = CollectiveComm(v, mine, n, shared)
            got = call(v, comm, mine, state)
            comm.done()
        vc.prove(set(got) == set(want) | ({"time"} if has_time else set()) | ({"other"} if given else set()),
                 "each rank gets the variables in the files that are asked for, and the time if there is one")
        if given:
            vc.prove(got is state, "a given state is filled and returned")
            vc.prove(got["other"] is own["other"], "other entries are left as they are")
            prove_unchanged(vc, got["other"].data, before["other"], "other entries are left as they are")
        if has_time:
            is_date(vc, got["time"], 2, when)
        for name, (dims, unit, values, extent) in want.items():
            q = got[name]
            vc.prove(tuple(q.dims) == dims, "the dimensions have the documented names")
            vc.prove(q.units == unit, "the units are the documented ones")
            piece = tuple(cells[d[0]] + n_shared(d) for d in dims)
            vc.prove_shape(q.extent, piece, "each rank gets its own piece")
            for k in vc.indices(piece):
                p = tuple(pos(d, j, i) * cells[d[0]] + x for d, x in zip(dims, k))
                vc.prove_eq(vc.at(q.data, compute(q, k)), vc.at(values, (0,) + p), "each rank gets its own piece")
            if name in before:
                vc.prove(q is own[name], "given quantities are filled in place")
                prove_outside_unchanged(vc, q, before[name], "given quantities only change in the compute domain")
