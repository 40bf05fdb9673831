"""Worlds for C24: a ghost of descriptors, descriptions and temporary files, and the real one.

Ghost: the assumed contract of dup, dup2, close, temporary files and BytesIO.  A descriptor
refers to a description; a description is a list of tokens (each token is data of any
length and content) with one offset shared by the descriptors that refer to it.  Descriptor
numbers are symbolic and distinct.  A stream keeps an arbitrary part of what was written to
it until it is flushed.
"""
import errno
import io as real_io
import os as real_os
import shutil as real_shutil
import tempfile as real_tempfile
import types

from .common import *


class Description:
    def __init__(self):
        self.tokens, self.at_end = [], True

    def write(self, tokens):
        if self.at_end:
            self.tokens = self.tokens + list(tokens)
        elif tokens:
            self.tokens = ["overwritten"]

    def read(self):
        out, self.at_end = ([] if self.at_end else list(self.tokens)), True
        return out


class Content:
    """bytes nobody looks into"""

    def __init__(self, vc, tokens):
        self._vc, self._tokens = vc, list(tokens)

    def __add__(self, other):
        if isinstance(other, bytes) and not other:
            return self
        if not isinstance(other, Content):
            self._vc.unsupported("captured data combined with other data")
        return Content(self._vc, self._tokens + other._tokens)

    def __radd__(self, other):
        return Content(self._vc, []) + other if not isinstance(other, bytes) or other else self

    def __getattr__(self, name):
        self._vc.unsupported("bytes.%s of captured data" % name)

    def _opaque(self, *a):
        self._vc.unsupported("looking into captured data")

    __len__ = __bool__ = __iter__ = __getitem__ = __eq__ = _opaque
    __hash__ = None


class ModuleStub(types.ModuleType):
    def __init__(self, vc, name, real, ghost, allowed=()):
        super().__init__(name)
        self.__dict__.update(ghost)
        self.__dict__.update({k: getattr(real, k) for k in allowed})
        self.__dict__["_vc"] = vc

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self._vc.unsupported("%s.%s" % (self.__name__, k))


class GhostFile:
    def __init__(self, world, kind):
        self._w, self.closed = world, True
        self._fd = world.open(Description())
        self.closed = False

    def fileno(self):
        self._check()
        return self._fd

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def _d(self):
        self._check()
        return self._w.at(self._fd)

    def seek(self, offset, whence=0):
        d = self._d()
        if (offset, whence) == (0, 0):
            d.at_end = not d.tokens
        elif (offset, whence) == (0, 2):
            d.at_end = True
        else:
            self._w.vc.unsupported("seek into captured data")
        return 0

    def read(self, n=-1):
        if n is not None and n != -1:
            self._w.vc.unsupported("reading a part of the captured data")
        return Content(self._w.vc, self._d().read())

    def readlines(self, hint=-1):
        # lines: some division of the data; its parts are in order and complete
        return [Content(self._w.vc, [t]) for t in self._d().read()]

    def __iter__(self):
        return iter(self.readlines())

    def getvalue(self):
        self._w.vc.unsupported("getvalue of a file")

    def flush(self):
        self._check()

    def write(self, data):
        if isinstance(data, bytes) and not data:
            return 0
        self._w.vc.unsupported("writing to the temporary file")

    def close(self):
        if not self.closed:
            self.closed = True
            self._w.close(self._fd)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self.close()
        except OSError:
            pass

    def __getattr__(self, k):
        self._w.vc.unsupported("temporary file: " + k)


class GhostBytesIO:
    def __init__(self, world, initial=b""):
        self._w, self._tokens, self.closed = world, [], False
        self._end = True
        if not (isinstance(initial, bytes) and not initial):
            self.write(initial)
            self._end = False

    def write(self, data):
        if isinstance(data, bytes) and not data:
            return 0
        if not isinstance(data, Content) or not self._end:
            self._w.vc.unsupported("BytesIO.write of other data")
        self._tokens = self._tokens + data._tokens

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def getvalue(self):
        return Content(self._w.vc, self._tokens)

    def seek(self, offset, whence=0):
        if offset != 0 or whence not in (0, 2):
            self._w.vc.unsupported("seek in BytesIO")
        self._end = whence == 2 or not self._tokens

    def flush(self):
        pass

    def __getattr__(self, k):
        self._w.vc.unsupported("BytesIO." + k)


class GhostStream:
    def __init__(self, world, fd):
        self._w, self._fd, self._pending = world, fd, []

    def fileno(self):
        return self._fd

    def flush(self):
        self._w.at(self._fd).write(self._pending)
        self._pending = []

    def write(self, token):
        self._pending.append(token)
        if token[1].endswith("1"):  # the last part is not flushed (it may be empty)
            self.flush()

    def __getattr__(self, k):
        self._w.vc.unsupported("stream." + k)


class GhostWorld:
    def __init__(self, vc):
        self.vc, self.n, self.fds, self.limit = vc, 0, [], None
        for k in range(3):  # others are open, too
            self.open(Description())
        ghost = dict(dup=self.dup, dup2=self.dup2, close=self.close, lseek=self.lseek)
        allowed = ["path", "fspath", "getcwd", "error", "environ", "getpid", "linesep", "sep", "name"]
        vc.stub("os", ModuleStub(vc, "os", real_os, ghost, allowed))
        make = lambda *a, **k: self.temporary(*a, **k)
        vc.stub("tempfile", ModuleStub(vc, "tempfile", real_tempfile, dict(NamedTemporaryFile=make, TemporaryFile=make)))
        vc.stub("shutil", ModuleStub(vc, "shutil", real_shutil, dict(copyfileobj=lambda src, dst, n=0: dst.write(src.read()) and None)))
        vc.stub("io", ModuleStub(vc, "io", real_io, dict(BytesIO=lambda *a: GhostBytesIO(self, *a)),
                                 [k for k in dir(real_io) if k != "BytesIO" and not k.startswith("__")]))

    # -- descriptors
    def open(self, description):
        if self.limit is not None:
            if self.limit == 0:
                raise OSError(errno.EMFILE, "Too many open files")
            self.limit -= 1
        self.n += 1
        fd = self.vc.int("fd%d" % self.n, 0)
        for other, _ in self.fds:
            self.vc.assume(fd != other)
        self.fds.append((fd, description))
        return fd

    def find(self, fd):
        for k, (other, d) in enumerate(self.fds):
            if fd is other or self.vc.is_int(fd) and fd == other:
                return k
        raise OSError(errno.EBADF, "Bad file descriptor")

    def at(self, fd):
        return self.fds[self.find(fd)][1]

    def dup(self, fd):
        return self.open(self.at(fd))

    def dup2(self, fd, fd2, inheritable=True):
        d = self.at(fd)
        try:
            k = self.find(fd2)
        except OSError:
            self.fds.append((fd2, d))
        else:
            self.fds[k] = (fd2, d)
        return fd2

    def close(self, fd):
        del self.fds[self.find(fd)]
        if self.limit is not None:
            self.limit += 1

    def lseek(self, fd, offset, whence):
        d = self.at(fd)
        if (offset, whence) not in ((0, 0), (0, 2)):
            self.vc.unsupported("lseek to somewhere")
        d.at_end = whence == 2 or not d.tokens
        return 0 if whence == 0 or not d.tokens else self.vc.unsupported("length of captured data")

    def temporary(self, mode="w+b", *a, **k):
        if mode not in ("w+b", "wb+", "r+b", "rb+"):
            self.vc.unsupported("temporary file with mode %r" % (mode,))
        return GhostFile(self, mode)

    # -- for the contract
    def stream(self, name):
        return GhostStream(self, self.open(Description()))

    def direct(self, stream, token):
        self.at(stream._fd).write([("D", token)])
        return [("D", token)]

    def text(self, stream, token):
        stream.write(("T", token))
        return [("T", token)]

    def pending(self, stream):
        return stream._pending

    def table(self):
        return list(self.fds)

    def same_table(self, before):
        return len(before) == len(self.fds) and all(
            any((fd is b or fd == b) and d is e for b, e in before) for fd, d in self.fds)

    def watch(self, stream):
        return self.at(stream._fd)

    def received(self, watched):
        return list(watched.tokens)

    def captured(self, out):
        v = out.getvalue()
        return v._tokens if isinstance(v, Content) else ["other"]

    def only(self, kind, tokens):
        return [t for t in tokens if t[0] == kind]

    def join(self, *parts):
        return sum(parts, [])

    def allow(self, n):
        self.limit = n

    def done(self):
        pass


class RealWorld:
    """the same on real descriptors, inside of a scratch directory"""

    def __init__(self, vc):
        self.vc = vc
        self.dir = real_tempfile.TemporaryDirectory(prefix="c24")
        self.streams, self.paths, self.k, self.old = [], {}, 0, None

    def data(self, alphabet):
        n = self.vc.rng.choice([0, 1, 3, 100, 5000, 9000, 70000, 200000, self.vc.rng.choice([0, 100, 5000, 1100000, 2500000, 9000000])])
        self.k += 1
        body = "".join(self.vc.rng.choice(alphabet) for _ in range(min(n, 64)))
        if n > 64:
            body += (body * (n // 64 + 1))[: n - 64]
        return body

    def stream(self, name):
        path = real_os.path.join(self.dir.name, name)
        s = open(path, "w", buffering=-1)
        self.streams.append(s)
        self.paths[s] = path
        return s

    def direct(self, stream, token):
        data = self.data("ABCDEFGH\n\x00\xff\r").encode("latin1")
        view = data
        while view:
            view = view[real_os.write(stream.fileno(), view):]
        return data

    def text(self, stream, token):
        data = self.data("abcdefgh")
        stream.write(data)
        if self.vc.rng.random() < 0.5:
            stream.flush()
        return data.encode()

    def pending(self, stream):
        return []

    def table(self):
        out = {}
        for k in real_os.listdir("/proc/self/fd"):
            try:
                s = real_os.fstat(int(k))
                out[int(k)] = (s.st_dev, s.st_ino)
            except OSError:
                pass
        return out

    def same_table(self, before):
        return self.table() == before

    def watch(self, stream):
        return self.paths[stream]

    def received(self, path):
        with open(path, "rb") as f:
            return f.read()

    def captured(self, out):
        return out.getvalue()

    def only(self, kind, data):
        lower = b"abcdefgh"
        return data.translate(None, lower if kind == "D" else bytes(set(range(256)) - set(lower)))

    def join(self, *parts):
        return b"".join(parts)

    def allow(self, n):
        import resource

        if n is None:
            resource.setrlimit(resource.RLIMIT_NOFILE, self.old)
            self.old = None
            return
        open_fds = set(self.table())
        limit = 0
        while limit in open_fds or n > 0:
            n -= limit not in open_fds
            limit += 1
        self.old = resource.getrlimit(resource.RLIMIT_NOFILE)
        resource.setrlimit(resource.RLIMIT_NOFILE, (limit, self.old[1]))

    def done(self):
        if self.old is not None:
            self.allow(None)
        for s in self.streams:
            try:
                s.close()
            except OSError:
                pass
        self.dir.cleanup()


def make_world(vc):
    return GhostWorld(vc) if vc.symbolic else RealWorld(vc)
