"""C20: nudging moves the state by the exact relaxation step.

The number of names is bounded (0..3 in every order, and 4, 8 and 16); sizes, contents, halos, timescales and timesteps are
universal.
"""
import datetime
import itertools

from .common import *

LEVEL = "exploration"
NAMES = ["air_temperature", "specific_humidity", "air_temperature_2"]
DIMS_OF = dict(zip(NAMES, [(Z, Y, X), (XI, Y), (X,)]))
UNITS_OF = dict(zip(NAMES, ["degK", "kg/kg", ""]))
ASSUMPTIONS = [
    "the number of names is at most 3, or 4, 8, 16; state and reference hold each name with the same dimensions and extents",
    "timescales are not zero; durations are exact reals (binary rounding of total_seconds is not modelled)",
]


def units(tier):
    u = []
    for n in range(4):
        for chosen in itertools.permutations(NAMES, n):
            if n < 3 or chosen in (tuple(NAMES), tuple(NAMES[::-1])):
                for fn in ("apply", "tendencies_only"):
                    u.append((fn, dict(chosen=chosen)))
    for dims in [(X,), (YI, XI), (X, Y, Z), ("yland_interface", Z, Y, X), ()]:
        u.append(("one", dict(dims=dims)))
    u += [("same_objects", {}), ("twice", {})]
    u += [("many", dict(n=n)) for n in (5, 9, 17)]
    return u


class Duration(datetime.timedelta):
    """any duration: total_seconds() is an arbitrary real, and days, seconds and
    microseconds are its decomposition"""

    def __new__(cls, vc, name, nonzero):
        d = datetime.timedelta.__new__(cls, 1)
        d.vc, d.name, d.total = vc, name, vc.real(name, nonzero=nonzero)
        d.parts = None
        return d

    def total_seconds(self):
        return self.total

    def split(self):
        if self.parts is None:
            vc, n = self.vc, self.name
            self.parts = vc.int(n + "_days"), vc.int(n + "_s", 0, 86399), vc.int(n + "_us", 0, 999999)
            d, s, us = [vc.to_real(p) for p in self.parts]
            vc.assume(self.total * 1000000 == (d * 86400 + s) * 1000000 + us)
        return self.parts

    days = property(lambda self: self.split()[0])
    seconds = property(lambda self: self.split()[1])
    microseconds = property(lambda self: self.split()[2])

    def __truediv__(self, other):
        if isinstance(other, Duration):
            return self.total / other.total
        if isinstance(other, datetime.timedelta):
            return self.total / datetime.timedelta.total_seconds(other)
        raise self.vc.unsupported("division of a duration")

    def __rtruediv__(self, other):
        if isinstance(other, datetime.timedelta):
            return datetime.timedelta.total_seconds(other) / self.total
        raise self.vc.unsupported("division by a duration")

    def other(self, *a):
        raise self.vc.unsupported("arithmetic of durations")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __floordiv__ = __mod__ = other
    __neg__ = __abs__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = other
    __bool__ = lambda self: bool(self.total != 0)
    __hash__ = object.__hash__


def duration(vc, name, nonzero=False):
    """(timedelta, its length in seconds)"""
    if vc.symbolic:
        d = Duration(vc, name, nonzero)
        return d, d.total
    d = datetime.timedelta(days=vc.int(name + "_days", -2, small=4), seconds=vc.int(name + "_s", 0, small=86399),
                           microseconds=vc.choice(name + "_us", [0, 0, 1, 500000]))
    if vc.values and name in vc.values:
        n, m = vc.values[name]
        d = datetime.timedelta(seconds=n / m)
    if nonzero:
        vc.assume(d.total_seconds() != 0)
    return d, d.total_seconds()


def make(vc, name, dims, units, extent, tag):
    """a quantity with its own halo around the given compute domain"""
    Q = vc.mod("quantity").Quantity
    origin = tuple(vc.int("o_%s_%s_%d" % (tag, name, k), 0, small=2) for k in range(len(dims)))
    after = tuple(vc.int("b_%s_%s_%d" % (tag, name, k), 0, small=2) for k in range(len(dims)))
    shape = tuple(o + e + b for o, e, b in zip(origin, extent, after))
    data = vc.array("%s_%s" % (tag, name), shape)
    return Q(data, dims=dims, units=units, origin=origin, extent=extent)


class Setup:
    def __init__(self, vc, dims_of, units_of, chosen):
        self.vc, self.chosen = vc, chosen
        self.extent = {n: tuple(vc.int("n_%s_%d" % (n, k), 1, small=3) for k in range(len(d))) for n, d in dims_of.items()}
        self.state = {n: make(vc, n, d, units_of[n], self.extent[n], "state") for n, d in dims_of.items()}
        self.reference = {n: make(vc, n, d, units_of[n], self.extent[n], "reference") for n, d in dims_of.items()}
        self.reference["only here"] = make(vc, "extra", (X,), "m", (2,), "reference")
        self.state["time"] = self.time = datetime.datetime(2016, 8, 1)
        self.reference["time"] = datetime.datetime(2017, 8, 1)
        self.scales, self.seconds = {}, {}
        for n in chosen:
            self.scales[n], self.seconds[n] = duration(vc, "timescale_" + n, True)
        self.freeze()

    def freeze(self):
        self.keys = list(self.state), list(self.reference), list(self.scales)
        self.objects = dict(self.state), dict(self.reference), dict(self.scales)
        snap = lambda s: {k: snapshot(self.vc, q.data) for k, q in s.items() if k != "time"}
        self.before, self.ref_before = snap(self.state), snap(self.reference)

    def old(self, name, k):
        return self.vc.at(self.before[name], [o + i for o, i in zip(self.state[name].origin, k)])

    def ref(self, name, k):
        return self.vc.at(self.ref_before[name], [o + i for o, i in zip(self.reference[name].origin, k)])

    def check_tendencies(self, got):
        vc = self.vc
        vc.prove(set(got) == set(self.chosen) and len(got) == len(self.chosen), "one tendency for each named variable")
        for n in self.chosen:
            if n not in got:
                continue
            t = got[n]
            vc.prove(t.units == self.state[n].units + " s^-1", "tendencies have per-second units")
            vc.prove(t.dims == self.state[n].dims, "tendencies have the variable's dimensions")
            vc.prove_shape(t.extent, self.extent[n], "tendencies have the variable's extent")
            for k in vc.indices(self.extent[n]):
                vc.prove_eq(vc.at(t.view[:], k), (self.ref(n, k) - self.old(n, k)) / self.seconds[n],
                            "tendency is (reference - state) / timescale")

    def check_unchanged(self, moved):
        """nothing but the compute domains of the moved variables has changed"""
        vc = self.vc
        watched = vc.choice("watched", [(w, n) for w in ("state", "reference")
                                        for n in getattr(self, w) if n != "time"])
        vc.prove(self.keys == (list(self.state), list(self.reference), list(self.scales)), "no names added or removed")
        for now, then in zip((self.state, self.reference, self.scales), self.objects):
            vc.prove(all(now[k] is then[k] for k in then), "no entry is replaced")
        for which, s, before in (("state", self.state, self.before), ("reference", self.reference, self.ref_before)):
            for n, q in s.items():
                if (which, n) != watched:
                    continue
                for p in vc.indices(q.data.shape):
                    if which == "state" and n in moved:
                        k = inside(p, [(o, o + e) for o, e in zip(q.origin, q.extent)])
                        if k is not None:
                            continue
                    vc.prove_eq(vc.at(q.data, p), vc.at(before[n], p), "unchanged: the %s outside of what is nudged" % which)
        for n, q in self.state.items():
            if n != "time":
                vc.prove_shape(q.extent, self.extent[n], "extents unchanged")

    def check_moved(self, dt):
        vc = self.vc
        for n in self.chosen:
            q = self.state[n]
            for k in vc.indices(self.extent[n]):
                step = (self.ref(n, k) - self.old(n, k)) / self.seconds[n] * dt
                vc.prove_eq(vc.at(q.data, [o + i for o, i in zip(q.origin, k)]), self.old(n, k) + step,
                            "state moves by timestep/timescale times (reference - state)")


def run_apply(vc, S):
    dt, seconds = duration(vc, "timestep")
    got = vc.mod("nudging").apply_nudging(S.state, S.reference, S.scales, dt)
    S.check_tendencies(got)
    S.check_moved(seconds)
    S.check_unchanged(S.chosen)
    # the returned tendencies are the caller's own
    frozen = {n: snapshot(vc, S.state[n].data) for n in S.chosen}
    for n in S.chosen:
        got[n].data[...] = vc.array("scratch_" + n, got[n].data.shape)
    for n in frozen:
        for p in vc.indices(frozen[n].shape):
            vc.prove_eq(vc.at(S.state[n].data, p), vc.at(frozen[n], p), "tendencies do not share the state's memory")


def apply(vc, chosen):
    run_apply(vc, Setup(vc, DIMS_OF, UNITS_OF, chosen))


def tendencies_only(vc, chosen):
    S = Setup(vc, DIMS_OF, UNITS_OF, chosen)
    got = vc.mod("nudging").get_nudging_tendencies(S.state, S.reference, S.scales)
    S.check_tendencies(got)
    S.check_unchanged([])


def one(vc, dims):
    run_apply(vc, Setup(vc, {"q": dims}, {"q": "m s^-1"}, ("q",)))


def many(vc, n):
    """more names, in an order of their own; one of them is looked at"""
    names = ["tracer_%d" % (7 * k % n) for k in range(n)]
    size = (vc.int("size", 1, small=3),)
    quantities = lambda tag: {k: vc.mod("quantity").Quantity(vc.array(tag + k, size), dims=(X,), units="kg/kg") for k in sorted(names)}
    state, reference = quantities("state_"), quantities("reference_")
    old, ref = [{k: snapshot(vc, q.data) for k, q in d.items()} for d in (state, reference)]
    scales = {k: duration(vc, "timescale_" + k, True) for k in names[:-1]}
    dt, seconds = duration(vc, "timestep")
    got = vc.mod("nudging").apply_nudging(state, reference, {k: d for k, (d, _) in scales.items()}, dt)
    vc.prove(list(state) == sorted(names) and set(got) == set(names[:-1]), "one tendency for each named variable")
    name = vc.choice("name", names)
    for k in vc.indices(size):
        a, b = vc.at(old[name], k), vc.at(ref[name], k)
        vc.prove_eq(vc.at(reference[name].data, k), b, "the reference is unchanged")
        if name not in scales:
            vc.prove_eq(vc.at(state[name].data, k), a, "other variables are unchanged")
            return
        vc.prove_eq(vc.at(got[name].view[:], k), (b - a) / scales[name][1], "tendency is (reference - state) / timescale")
        vc.prove_eq(vc.at(state[name].data, k), a + (b - a) / scales[name][1] * seconds, "state moves by timestep/timescale times (reference - state)")


def same_objects(vc):
    """a variable nudged towards itself does not move"""
    S = Setup(vc, {"q": (Y, X)}, {"q": "m"}, ("q",))
    S.reference["q"] = S.state["q"]
    S.freeze()
    dt, _ = duration(vc, "timestep")
    got = vc.mod("nudging").apply_nudging(S.state, S.reference, S.scales, dt)
    S.check_tendencies(got)
    S.check_unchanged([])


def twice(vc):
    """every call works on the state it is given, whatever happened before"""
    S = Setup(vc, {"q": (Y, X)}, {"q": "m"}, ("q",))
    dt, _ = duration(vc, "timestep0")
    first = vc.mod("nudging").apply_nudging(S.state, S.reference, S.scales, dt)
    kept = snapshot(vc, first["q"].data)
    S.freeze()
    run_apply(vc, S)
    for p in vc.indices(kept.shape):
        vc.prove_eq(vc.at(first["q"].data, p), vc.at(kept, p), "earlier tendencies keep their values")
