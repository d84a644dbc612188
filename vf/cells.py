"""Memory as numbered cells: buffers, views on them placed by strides, and snapshots of their contents."""
import numpy as np
from numpy.lib.stride_tricks import as_strided

from .guard import Slot
from .layouts import poison

_slots = []


class Buffers:
    """The buffers of one call.  Those without references lie against a guard page."""

    def __init__(self, rng):
        self.rng, self.bufs, self.used = rng, [], 0

    def new(self, dtype, n, shift=0, fill=None):
        """A buffer of n cells, `shift` bytes out of alignment."""
        dt = np.dtype(dtype)
        if dt.hasobject:
            a = np.empty(n, dtype=object)
            a[:] = [("poison", k) for k in range(n)]
            self.bufs.append(a)
            return len(self.bufs) - 1
        while len(_slots) <= self.used:
            _slots.append(Slot(1 << 20))
        s = _slots[self.used]
        self.used += 1
        nb = n * dt.itemsize
        if self.rng.integers(2):
            start = s.size - nb - (dt.itemsize - shift if shift else 0)
        else:
            start = shift
        raw = s.usable[start:start + nb]
        a = raw.view(dt)
        a[:] = poison(dt.newbyteorder("="), self.rng) if fill is None else fill
        self.bufs.append(a)
        return len(self.bufs) - 1


def strides_for(extents, keys, inner_gap):
    """Strides in cells for axes of these extents.

    keys are signed ranks: the axis with the largest |key| is outermost, the sign is the direction,
    0 repeats the same elements.
    """
    out = [0] * len(extents)
    step = inner_gap
    for ax in sorted(range(len(extents)), key=lambda a: abs(keys[a])):
        if keys[ax] == 0:
            continue
        out[ax] = step if keys[ax] > 0 else -step
        step *= max(extents[ax], 1)
    return out


def span(extents, strides):
    """(lowest, highest) cell offset of the elements."""
    lo = sum(s * (n - 1) for n, s in zip(extents, strides) if s < 0 and n > 0)
    hi = sum(s * (n - 1) for n, s in zip(extents, strides) if s > 0 and n > 0)
    return lo, hi


def view(buf, base, extents, strides):
    """base counts from 0."""
    if any(n == 0 for n in extents):
        return np.zeros(extents, dtype=buf.dtype)
    sz = buf.dtype.itemsize
    return as_strided(buf[base:], shape=tuple(extents), strides=tuple(s * sz for s in strides))


def keys(a):
    """One hashable key for each element, in row-major order; NaNs are alike."""
    a = np.asarray(a)
    dt = a.dtype
    if dt.kind == "O":
        return [(type(v).__name__, v if isinstance(v, (int, str, tuple, bool)) else repr(v)) for v in a.reshape(-1)]
    a = np.ascontiguousarray(a.astype(dt.newbyteorder("="))).reshape(-1)
    if dt.kind == "c":
        f = a.view(np.dtype(dt.char.lower()))
        k = keys(f)
        return list(zip(k[0::2], k[1::2]))
    if dt.kind == "f":
        nan = np.isnan(a)
        if a.dtype.itemsize > 8:
            raw = a.tobytes()
            k = [raw[i:i + 10] for i in range(0, len(raw), a.dtype.itemsize)]
        else:
            k = a.view("u%d" % a.dtype.itemsize).tolist()
        return ["nan" if q else (dt.char, v) for q, v in zip(nan, k)]
    return [(dt.kind, v) for v in a.tolist()]


class Ids:
    def __init__(self):
        self.d = {}

    def __call__(self, a):
        d = self.d
        return [d.setdefault(k, len(d) + 1) for k in keys(a)]


def close(got, exp, scale, char):
    """Equal, or within a few units of rounding of the scale of the operands."""
    if np.dtype(char).kind not in "fc":
        return got == exp
    eps = np.finfo(np.dtype(char)).eps
    with np.errstate(all="ignore"):
        return bool(abs(got - exp) <= 256 * eps * (abs(exp) + scale))
