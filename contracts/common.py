"""Helpers shared by the contracts on arrays: quantities of symbolic size."""
from .spec import *


class Box:
    """symbolic geometry of a quantity: pads around the compute domain"""

    def __init__(self, vc, dims, tag="", lo=1, pad_lo=0, same_pads=False):
        self.dims = tuple(dims)
        self.extent = tuple(vc.int("n%s_%d" % (tag, k), lo) for k in range(len(dims)))
        self.origin = tuple(vc.int("a%s_%d" % (tag, k), pad_lo) for k in range(len(dims)))
        self.after = tuple(vc.int("b%s_%d" % (tag, k), pad_lo) for k in range(len(dims)))
        self.shape = tuple(
            o + e + b for o, e, b in zip(self.origin, self.extent, self.after)
        )

    def quantity(self, vc, name="data", dtype=float, units="m"):
        q = vc.mod("quantity")
        data = vc.array(name, self.shape, dtype)
        return q.Quantity(
            data, dims=self.dims, units=units, origin=self.origin, extent=self.extent
        )


def inside(idx, block):
    """position of idx inside block ((start, stop) per axis), or None"""
    out = []
    for i, (a, b) in zip(idx, block):
        if i < a or i >= b:
            return None
        out.append(i - a)
    return tuple(out)


def snapshot(vc, arr):
    """an independent copy of the current content"""
    return arr.copy()


def prove_view(vc, view, data, block, label):
    """view is exactly data[block], aliasing it: reads agree now, and a write through the
    view changes exactly that block of data"""
    vc.prove_shape(view.shape, [b - a for a, b in block], label + ": shape")
    before = snapshot(vc, data)
    for k in vc.indices(view.shape):
        p = tuple(a + i for (a, b), i in zip(block, k))
        vc.prove_eq(vc.at(view, k), vc.at(before, p), label + ": content")
    new = vc.array("new_" + "".join(c for c in label if c.isalnum()), view.shape)
    view[...] = new
    for p in vc.indices(data.shape):
        k = inside(p, block)
        if k is None:
            vc.prove_eq(vc.at(data, p), vc.at(before, p), label + ": rest untouched")
        else:
            vc.prove_eq(vc.at(data, p), vc.at(new, k), label + ": window onto the data")
