"""C16: timers account every interval exactly once.

The step contracts start from an arbitrary state of the timer (any enabled flag, any set of
running clocks, any accumulated time and hit count of each name) and prove what one
operation does to it; with `fresh` this is an induction over every history.  The state is
made arbitrary without assuming how it is represented: every numeric leaf of the timer
object is tried, and kept when `times` or `hits` shows it.
"""
import types
import warnings

from .common import *

NAMES = ["halo", "halo_update", ""]
ASSUMPTIONS = ["clock names are compared only for equality (three names stand for all)",
               "an exception leaving the body of `clock` is not specified"]
OPS = ["start", "stop", "clock", "clock_nested", "clock_other", "disable", "enable", "reset", "read", "restart"]


def units(tier):
    u = [("fresh", dict(null=n)) for n in (False, True)]
    for op in OPS:
        for running in (0, 1, 2):
            u.append(("step", dict(op=op, running=running, enabled=True)))
        u.append(("step", dict(op=op, running=0, enabled=False)))
        u.append(("null_step", dict(op=op)))
    u += [("history", dict(length=n)) for n in (2, 3)]
    return u


class Clock:
    def __init__(self, vc):
        self.vc, self.n, self.active = vc, 0, True
        self.tick()
        import time
        import timeit

        for name, real in (("timeit", timeit), ("time", time)):
            m = types.ModuleType(name)
            m.__dict__.update(real.__dict__)
            for f in ("default_timer", "perf_counter", "monotonic", "time", "process_time", "thread_time"):
                if hasattr(real, f):
                    setattr(m, f, self.reader(getattr(real, f)))
            vc.stub(name, m)

    def reader(self, real):
        return lambda: self.now if self.active else real()

    def tick(self):
        """an arbitrary time passes"""
        self.n += 1
        self.now = self.vc.real("t%d" % self.n)
        return self.now


class Model:
    """what the timer must report"""

    def __init__(self):
        self.running, self.sum, self.hits, self.enabled = {}, {}, {}, True

    def start(self, name, now):
        if self.enabled:
            self.running[name] = now

    def stop(self, name, now):
        if self.enabled:
            d = now - self.running.pop(name)
            self.sum[name] = self.sum[name] + d if name in self.sum else d
            self.hits[name] = self.hits.get(name, 0) + 1


def read(vc, timer, m, what, when):
    """what is reported; a warning says that running clocks are not included, and only then"""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        value = getattr(timer, what)
    warned = any(issubclass(w.category, RuntimeWarning) for w in caught)
    vc.prove(warned == bool(m.running), "warns if and only if clocks are running " + when)
    return value


def agrees(vc, timer, m, when):
    times, hits = read(vc, timer, m, "times", when), read(vc, timer, m, "hits", when)
    vc.prove(set(times) == set(m.sum), "names with a time are those with completed intervals " + when)
    vc.prove(set(hits) == set(m.hits), "names with a hit count are those with completed intervals " + when)
    for k in m.sum:
        if k in times and k in hits:
            vc.prove_eq(times[k], m.sum[k], "time is the sum of the completed intervals " + when)
            vc.prove_eq(hits[k], m.hits[k], "hits is the number of completed intervals " + when)
    vc.prove(bool(timer.enabled) == m.enabled, "enabled flag " + when)
    # what is reported is a copy
    times["halo"], hits["halo"], times["else"], hits["else"] = -1.0, -1, -2.0, -3
    t2, h2 = timer.times, timer.hits
    vc.prove(set(t2) == set(m.sum) and set(h2) == set(m.hits), "reported mappings are copies " + when)
    for k in m.sum:
        if k in t2 and k in h2:
            vc.prove_eq(t2[k], m.sum[k], "reported times are a copy " + when)
            vc.prove_eq(h2[k], m.hits[k], "reported hits are a copy " + when)


def finish(vc, timer, m, clock):
    """what is running shows when it is stopped: each interval starts at its own start"""
    for k in sorted(m.running, reverse=True):
        clock.tick()
        timer.stop(k)
        m.stop(k, clock.now)
    agrees(vc, timer, m, "after stopping the running clocks")
    # and nothing else was running
    for k in NAMES:
        if timer.enabled:
            try:
                timer.stop(k)
            except Exception:
                pass
    agrees(vc, timer, m, "when no other clock was running")


def leaves(obj, depth=0, seen=None):
    """(container, key, value) of the numeric leaves reachable from an object"""
    seen = seen if seen is not None else set()
    if id(obj) in seen or depth > 4:
        return
    seen.add(id(obj))
    if isinstance(obj, dict):
        items = list(obj.items())
    elif isinstance(obj, list):
        items = list(enumerate(obj))
    elif hasattr(obj, "__dict__") and not isinstance(obj, (type, types.ModuleType, types.FunctionType)):
        yield from leaves(obj.__dict__, depth, seen)
        return
    else:
        return
    for k, v in items:
        if isinstance(v, bool) or isinstance(v, str):
            continue
        if isinstance(v, (dict, list)) or hasattr(v, "__dict__") and type(v).__module__.startswith("fv3gfs"):
            yield from leaves(v, depth + 1, seen)
        else:
            yield obj, k, v


def any_history(vc, timer, m, name, clock, number):
    """`name` has completed any number of intervals of any total length"""
    total, hits = vc.real("sum%d" % number), vc.int("hits%d" % number, 1)
    if not vc.symbolic:
        # the same state through the API alone
        hits = min(hits, 7)
        for k in range(hits):
            clock.now = float(k)
            timer.start(name)
            clock.now = float(k) + (total if k == 0 else 0.0)
            timer.stop(name)
        m.sum[name], m.hits[name] = total, hits
        return
    clock.tick()
    timer.start(name)
    clock.tick()
    timer.stop(name)
    found = [False, False]
    for box, k, old in list(leaves(timer)):
        for want, value, get in ((0, total, lambda: timer.times), (1, hits, lambda: timer.hits)):
            if found[want]:
                continue
            box[k] = value
            try:
                ok = get().get(name) is value
            except Exception:
                ok = False
            if ok:
                found[want] = True
                break
            box[k] = old
    if not all(found):
        raise vc.unsupported("the representation of the timer's state was not recognised")
    m.sum[name], m.hits[name] = total, hits


def arbitrary_timer(vc, running, enabled):
    clock = Clock(vc)
    T = vc.mod("_timing")
    timer, m = T.Timer(), Model()
    for i, name in enumerate(NAMES):
        if vc.bool("history%d" % i):
            any_history(vc, timer, m, name, clock, i)
    if vc.bool("was_disabled"):
        timer.disable()
        clock.tick()
        timer.enable()
    for name in NAMES[:running] if vc.bool("first") else NAMES[::-1][:running]:
        clock.tick()
        timer.start(name)
        m.start(name, clock.now)
    if not enabled:
        timer.disable()
        m.enabled = False
    clock.tick()
    return clock, timer, m


def step(vc, op, running, enabled):
    clock, timer, m = arbitrary_timer(vc, running, enabled)
    name = NAMES[0] if op in ("clock_nested", "clock_other") else vc.choice("name", NAMES)
    perform(vc, op, name, clock, timer, m)
    agrees(vc, timer, m, "after the operation")
    finish(vc, timer, m, clock)


def attempt(fn):
    try:
        fn()
    except Exception as err:
        return err
    return None


def perform(vc, op, name, clock, timer, m):
    if op in ("start", "restart"):
        if op == "restart":
            attempt(lambda: timer.start(name))
            if name not in m.running:
                m.start(name, clock.now)
            clock.tick()
        if m.enabled and name in m.running:
            vc.expect_raises(ValueError, lambda: timer.start(name), "starting a running clock is an error")
        else:
            timer.start(name)
            m.start(name, clock.now)
    elif op == "stop":
        if m.enabled and name not in m.running:
            attempt(lambda: timer.stop(name))
        else:
            timer.stop(name)
            m.stop(name, clock.now)
    elif op.startswith("clock"):
        if m.enabled and name in m.running:
            def block():
                with timer.clock(name):
                    pass
            vc.expect_raises(ValueError, block, "starting a running clock is an error")
            return
        with timer.clock(name):
            m.start(name, clock.now)
            clock.tick()
            other = NAMES[1]
            if op == "clock_other" and (other not in m.running or not m.enabled):
                # the other clock is started inside and stopped outside
                timer.start(other)
                m.start(other, clock.now)
                clock.tick()
            if op == "clock_nested" and (other not in m.running or not m.enabled):
                with timer.clock(other):
                    m.start(other, clock.now)
                    clock.tick()
                m.stop(other, clock.now)
                agrees(vc, timer, m, "inside of a clock block")
                if m.enabled:
                    vc.expect_raises(ValueError, lambda: timer.start(name), "a clock block runs its clock")
                clock.tick()
        m.stop(name, clock.now)
    elif op == "disable":
        if m.running:
            vc.expect_raises(RuntimeError, timer.disable, "a timer cannot be disabled while a clock runs")
        else:
            timer.disable()
            m.enabled = False
            agrees(vc, timer, m, "after disabling")
            timer.start(name)
            clock.tick()
            timer.stop(name)
            with timer.clock(name):
                clock.tick()
            agrees(vc, timer, m, "after using a disabled timer")
            timer.enable()
            m.enabled = True
            clock.tick()
            with timer.clock(name):
                m.start(name, clock.now)
                clock.tick()
            m.stop(name, clock.now)
    elif op == "enable":
        timer.enable()
        m.enabled = True
        clock.tick()
        if name not in m.running:
            timer.start(name)
            m.start(name, clock.now)
    elif op == "reset":
        timer.reset()
        m.sum.clear()
        m.hits.clear()
    elif op == "read":
        timer.times, timer.hits, timer.enabled
        clock.tick()


def null_step(vc, op):
    clock = Clock(vc)
    timer, m = vc.mod("_timing").NullTimer(), Model()
    m.enabled = False
    if op == "enable":
        attempt(timer.enable)
        vc.expect_raises(NotImplementedError, timer.enable, "a null timer cannot be enabled")
        with timer.clock(NAMES[0]):
            clock.tick()
        timer.stop(NAMES[1])
    elif op == "disable":
        timer.disable()
        timer.start(NAMES[0])
        timer.start(NAMES[0])
        timer.disable()
        timer.stop(NAMES[0])
    else:
        perform(vc, op, NAMES[0], clock, timer, m)
    agrees(vc, timer, m, "for a null timer")


def fresh(vc, null):
    clock = Clock(vc)
    T = vc.mod("_timing")
    timer, m = (T.NullTimer if null else T.Timer)(), Model()
    m.enabled = not null
    agrees(vc, timer, m, "when new")
    # two timers do not share anything
    other = T.Timer()
    with other.clock(NAMES[0]):
        clock.tick()
        attempt(lambda: timer.stop(NAMES[0]))
    other.start(NAMES[1])
    agrees(vc, timer, m, "when another timer was used")
    timer.disable()


def history(vc, length):
    """any history of a few operations from a new timer (no knowledge of the representation)"""
    clock = Clock(vc)
    timer, m = vc.mod("_timing").Timer(), Model()
    for k in range(length):
        op = vc.choice("op%d" % k, ["start", "stop", "clock", "clock_nested", "reset"])
        name = vc.choice("name%d" % k, NAMES[:2]) if op in ("start", "stop", "clock") else NAMES[0]
        perform(vc, op, name, clock, timer, m)
        clock.tick()
    agrees(vc, timer, m, "after the history")
    finish(vc, timer, m, clock)
