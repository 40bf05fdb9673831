"""C24: capture_stream returns everything written inside, and restores the stream.

Each contract starts from an arbitrary world (descriptors, data in the stream's buffer, data
already at the original destination).  A body is arbitrary: whatever it writes, its effect
is some data that reached the descriptor and some that is still in the stream's buffer.
"""
from .common import *
from .ghost_os import make_world

TRUSTED = ["ghost os, tempfile and io.BytesIO (contracts/ghost_os.py): dup, dup2, close, temporary files",
           "contextlib.contextmanager is CPython's own (executed as it is)"]
ASSUMPTIONS = ["the captured code leaves the stream's descriptor as it found it (inner captures included)",
               "the stream has fileno() and flush(), and flushing it does not fail",
               "one thread (no other thread opens or closes descriptors meanwhile)"]
ENDS = ["normal", "ValueError", "OSError", "KeyboardInterrupt", "SystemExit", "StopIteration", "GeneratorExit", "RuntimeError"]


def units(tier):
    u = [("capture", dict(end=e)) for e in ENDS]
    u += [("nested", dict(same=s, end=e)) for s in (True, False) for e in ("normal", "ValueError", "inner")]
    u += [("repeated", {}), ("exhausted", dict(free=0)), ("exhausted", dict(free=1)), ("exhausted", dict(free=2))]
    return u


class world:
    def __init__(self, vc):
        self.vc = vc

    def __enter__(self):
        self.w = make_world(self.vc)
        self.w.capture = self.vc.mod("").capture_stream
        return self.w

    def __exit__(self, *a):
        self.w.done()


class Body:
    """some data written to the stream, either way"""

    def __init__(self, w, stream, tag):
        self.D, self.T = w.direct(stream, tag + "1"), w.text(stream, tag + "1")
        self.D = w.join(self.D, w.direct(stream, tag + "2"))
        self.T = w.join(self.T, w.text(stream, tag + "2"))


def is_exactly(vc, w, data, bodies, label):
    vc.prove(len(data) == sum(len(b.D) + len(b.T) for b in bodies), label + ": nothing is missing and nothing is added")
    vc.prove(w.only("D", data) == w.join(*[b.D for b in bodies]), label + ": what was written to the descriptor, in order")
    vc.prove(w.only("T", data) == w.join(*[b.T for b in bodies]), label + ": what was written to the stream, in order")


def run(vc, w, stream, tag, end="normal", inside=None):
    """a capture of arbitrary writes; the body and what was captured"""
    error = None if end == "normal" else {"ValueError": ValueError, "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt,
                                          "SystemExit": SystemExit, "StopIteration": StopIteration, "GeneratorExit": GeneratorExit,
                                          "RuntimeError": RuntimeError}[end]("body")
    body, seen, out = [], None, None
    try:
        with w.capture(stream) as out:
            body.append(Body(w, stream, tag))
            if inside:
                inside()
                body.append(Body(w, stream, tag + "later"))
            if error is not None:
                raise error
    except BaseException as err:
        if error is None or type(err).__module__.startswith("pyvc"):
            raise  # the verifier's own
        seen = err
    if error is not None:
        # a RuntimeError raised from a StopIteration is how Python's generators see one
        vc.prove(seen is error or isinstance(error, StopIteration) and isinstance(seen, (StopIteration, RuntimeError)),
                 "an exception of the captured code is passed on")
    return body, out


def restored(vc, w, stream, table, watched, before, label=""):
    vc.prove(w.same_table(table), "every descriptor is what it was, and none stays open " + label)
    after = Body(w, stream, "after" + label)
    stream.flush()
    is_exactly(vc, w, w.received(watched), before + [after], "the original destination " + label)
    return before + [after]


def setup(vc, w, name="stream"):
    stream = w.stream(name)
    before = [Body(w, stream, "before" + name)]
    return stream, w.table(), w.watch(stream), before


def capture(vc, end):
    with world(vc) as w:
        stream, table, watched, before = setup(vc, w)
        body, out = run(vc, w, stream, "body", end)
        is_exactly(vc, w, w.captured(out), body, "captured")
        restored(vc, w, stream, table, watched, before)
        is_exactly(vc, w, w.captured(out), body, "captured (later)")


def nested(vc, same, end):
    with world(vc) as w:
        stream, table, watched, before = setup(vc, w)
        if same:
            inner = stream
        else:
            inner, table, iwatched, ibefore = setup(vc, w, "inner")
        got = []

        def inside():
            t = w.table()
            got.append(run(vc, w, inner, "inner", "ValueError" if end == "inner" else "normal"))
            vc.prove(w.same_table(t), "an inner capture restores every descriptor")

        body, out = run(vc, w, stream, "outer", "normal" if end == "inner" else end, inside)
        is_exactly(vc, w, w.captured(out), body, "captured by the outer")
        is_exactly(vc, w, w.captured(got[0][1]), got[0][0], "captured by the inner")
        restored(vc, w, stream, table, watched, before)
        if not same:
            restored(vc, w, inner, table, iwatched, ibefore, "(inner)")


def repeated(vc):
    with world(vc) as w:
        stream, table, watched, before = setup(vc, w)
        body, out = run(vc, w, stream, "first")
        before = restored(vc, w, stream, table, watched, before, "(first)")
        body2, out2 = run(vc, w, stream, "second", "ValueError")
        body3, out3 = run(vc, w, stream, "third")
        is_exactly(vc, w, w.captured(out2), body2, "captured by the second")
        is_exactly(vc, w, w.captured(out3), body3, "captured by the third")
        is_exactly(vc, w, w.captured(out), body, "captured by the first")
        restored(vc, w, stream, table, watched, before, "(third)")


def exhausted(vc, free):
    """only `free` more descriptors can be opened: a capture that cannot begin changes nothing"""
    with world(vc) as w:
        stream, table, watched, before = setup(vc, w)
        entered, body, out = False, [], None
        w.allow(free)
        try:
            with w.capture(stream) as out:
                entered = True
                body.append(Body(w, stream, "body"))
        except OSError:
            vc.prove(not entered, "an exhausted descriptor table only prevents a capture from beginning")
        finally:
            w.allow(None)
        if entered:
            is_exactly(vc, w, w.captured(out), body, "captured")
        restored(vc, w, stream, table, watched, before)
